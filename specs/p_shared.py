from .solver import jobs_for, ASSUMED  # noqa: F401


def jobs(tier):
    return jobs_for([('shared geometry', 'jac_cases')], tier, {('jac_cases', 3): 8, ('jac_cases', 2): 2})
