from .solver import jobs_for, ASSUMED  # noqa: F401
from .blocks import sensor_jobs


def jobs(tier):
    return jobs_for([('smoothness', 'av_cases'), ('elementwise', 'elav_cases'), ('chebyshev', 'cheby_cases')], tier, {('elav_cases', 3): 6, ('elav_cases', 2): 2}) + sensor_jobs(tier)
