from .solver import jobs_for, ASSUMED  # noqa: F401


def jobs(tier):
    return jobs_for([('update', 'update_cases'), ('chebyshev', 'cheby_cases')], tier)
