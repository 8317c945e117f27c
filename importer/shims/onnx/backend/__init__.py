from . import base  # noqa
