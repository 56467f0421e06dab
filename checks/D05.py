import dynlib


class C(dynlib.DynCheck):
    id = 'D05'
    kind = 'push'
    mode = 'normal'
    rule = ('velocity updates with contacts of random scenes: touching bodies of all shapes, stacks, crowds, collisions, with joints, '
            'held bodies and forces; the witnesses are impulses at joints and contacts; non-trivial if there is a contact')

    def wanted(self, u):
        return bool(u.cs)


check = C()
