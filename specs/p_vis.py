from . import output
from .output import ASSUMED  # noqa: F401


def jobs(tier):
    return output.jobs(tier, ('sampling',))
