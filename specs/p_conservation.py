from .interface import jobs_for


def jobs(tier):
    return jobs_for('conservation_cases', tier)
