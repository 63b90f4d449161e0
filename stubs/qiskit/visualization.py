import os

__all__ = ["os"]
