from .element import jobs_for


def jobs(tier):
    return jobs_for('write_face_cases', ['euler', 'adv', 'sav'], tier)
