from .solver import jobs_for, ASSUMED  # noqa: F401


def jobs(tier):
    return jobs_for([('admissibility', 'admis_cases'), ('repair', 'fix_cases')], tier, {('admis_cases', 3): 9, ('admis_cases', 2): 2})
