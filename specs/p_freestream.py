from .element import jobs_for
ASSUMED = ['the basis satisfies sum_i w_i D_ij = b_1j - b_0j and reproduces constants (decided by the property on quadrature rules)']


def jobs(tier):
    s = [(1, 2), (2, 2), (2, 3), (3, 2)] if tier == 'quick' else None
    return jobs_for('freestream_cases', ['euler', 'ns', 'fta'], tier, s)
