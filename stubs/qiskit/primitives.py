class BackendSampler:
    pass


class Sampler:
    pass
