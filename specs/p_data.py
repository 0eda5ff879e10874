from .solver import jobs_for, ASSUMED  # noqa: F401


def jobs(tier):
    return jobs_for([('data', 'data_cases')], tier)
