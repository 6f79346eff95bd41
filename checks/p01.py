from forces import *


def run():
    c = Check('P01', 'Newtonian gravity', 'value number of every output acceleration component of hub::force::NewtonianGrav::add_acc_to equals '
              'prior + sum over the other bodies of m_j (r_j-r_i)/|r_j-r_i|^3, for each particle number and chain order', min_obl=100)
    def pair(a, b):
        dr = b['p'] - a['p']; r2 = dr.norm2(); r = sqrt(r2)
        return dr * (b['m'] / (r2 * r))
    check_force(c, 'force::NewtonianGrav', pair, 'newton', [*range(1, 8), 9, 15] if c.thorough else [*range(1, 7), 9], [*range(1, 7), 9, 15] if c.thorough else [*range(1, 6), 9], sums=True)
    return c.finish()
