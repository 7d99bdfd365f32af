"""Which sessions of Calls.tla are explored for which property."""
from . import calls

PAIR, STATE, CAST = set(calls.PAIRS), set(calls.STATES), set(calls.CAST)
MAPS = {'stumpff', 'stumpff0', 'stumpff1', 'stumpff2', 'stumpff3', 'true_of_the_asymptote'}
REST = MAPS | {'euler_rotation_matrix'}
LAY = {'C', 'F', 'strided', 'reversed', 'readonly', 'transposed'}
B = dict(Fns=PAIR, Shapes={1}, Layouts={'C'}, Types={'f8'}, Units={'rad'}, Opts={''}, Mixtures=0, Shifts={1}, Depth=1, Kinds={1})


def suites(prop, T):
    q = lambda a, b: b if T else a
    S = {
        'C18': lambda: [
            ('shapes', dict(B, Fns=PAIR | REST, Shapes=set(range(1, 11)), Layouts=q(LAY - {'readonly', 'transposed'}, LAY), Shifts=q({1}, {1, 2, 3, 4}))),
            ('state-shapes', dict(B, Fns=STATE, Layouts=LAY, Shifts=q({1, 2, 3}, set(range(1, 12))), Opts=q({'', 'defaults'}, {'', 'kw', 'defaults'}))),
            ('broadcast', dict(B, Fns=CAST, Shapes=q({1, 2, 4, 5, 10}, {1, 2, 3, 4, 5, 8, 10}), Layouts=q({'C'}, {'C', 'reversed'}))),
            ('mixtures', dict(B, Fns=PAIR, Shapes=q({2, 1, 3}, {1, 2, 3, 11}), Mixtures=3, Kinds=set(range(1, q(7, 13))))),
            ('state-mixtures', dict(B, Fns=STATE, Mixtures=3, Kinds=set(range(1, q(9, 12))))),
            ('large', dict(B, Fns=PAIR | STATE | REST, Shapes={1, 13, 14}, Layouts=q({'C'}, LAY), Shifts=q({1}, {1, 2, 3}))),
            ('large-elementwise', dict(B, Fns=CAST, Shapes=q({1, 13}, {1, 13, 14}))),
            ('stumpff-mixtures', dict(B, Fns=MAPS, Shapes={2, 5} if T else {2}, Mixtures=q(3, 6), Kinds=set(range(1, q(8, 5)))))],
        'C19': lambda: [
            ('shapes-degrees', dict(B, Fns=PAIR | REST, Units={'deg'}, Shapes=set(range(1, 10)), Layouts=q({'C', 'reversed'}, LAY), Shifts=q({1, 2}, {1, 2, 3, 4}),
                                    Opts={'', 'kw'})),
            ('state-degrees', dict(B, Fns=STATE, Units={'deg'}, Layouts=q({'C', 'F', 'strided'}, LAY), Types={'f8', 'i8'}, Shifts=q({1, 2, 3, 4}, set(range(1, 12))),
                                   Opts={'', 'kw', 'defaults'})),
            ('broadcast-degrees', dict(B, Fns=CAST, Units={'deg'}, Types={'f8', 'i8'}, Shapes=q({1, 2, 5, 10}, {1, 2, 3, 4, 5, 8, 10}))),
            ('large-degrees', dict(B, Fns=PAIR | STATE | REST | CAST, Units={'deg'}, Shapes={1, 13}, Layouts=q({'C'}, LAY))),
            ('mixtures-degrees', dict(B, Fns=PAIR | STATE, Units={'deg'}, Shapes={1, 2, 3}, Mixtures=3, Kinds=set(range(1, q(6, 12)))))],
        'C20': lambda: [
            ('types', dict(B, Fns=PAIR | REST | CAST, Shapes={1, 2, 8}, Layouts={'C', 'strided'}, Units={'rad', 'deg'}, Types={'f4', 'i8'},
                           Opts=q({''}, {'', 'kw', 'defaults'}), Shifts=q({1, 2}, {1, 2, 3, 4, 5}))),
            ('state-types', dict(B, Fns=STATE, Units={'rad', 'deg'}, Layouts=q({'C', 'readonly', 'reversed'}, LAY), Types={'f4', 'i8'}, Opts={'', 'defaults'},
                                 Shifts=q({1, 2}, set(range(1, 8))))),
            ('read-only', dict(B, Fns=PAIR | STATE | REST | CAST, Shapes={1, 2, 8}, Units={'rad', 'deg'}, Layouts={'readonly', 'C'}, Shifts=q({1, 3}, {1, 2, 3, 4}))),
            ('sessions', dict(B, Fns=PAIR | STATE | REST, Shapes={1, 2}, Units={'rad', 'deg'}, Types=q({'f8'}, {'f8', 'f4'}), Depth=q(4, 5))),
            ('sessions-elementwise', dict(B, Fns=CAST, Shapes={1, 2}, Units={'rad', 'deg'}, Types={'f8'}, Depth=q(3, 4)))],
    }
    return S[prop]() if prop in S else []


def run(prop, rep, thorough):
    s = suites(prop, thorough)
    if s:
        calls.run(rep, s)
