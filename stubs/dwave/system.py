class DWaveSampler:
    pass


class EmbeddingComposite:
    pass


class LeapHybridSampler:
    pass
