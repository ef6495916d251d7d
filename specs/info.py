"""What stays unproved around the proofs; copied into the evidence of every run."""
TRUSTED = [
    'pyvc (/verif/pyvc): the semantics of the Python subset (interp.py, values.py), the models of builtins (models.py) and the ring normal form (ring.py)',
    'z3 and cvc5 (an `unsat` answer is believed)',
    'CPython executes the source text in /repo that the verifier read',
]
ASSUMPTIONS = [
    'Python integers are mathematical integers; coefficients are elements of an arbitrary commutative ring represented by z3 reals under + - * and tests against constants',
    'arguments have the shapes stated in the contract case (the type annotations of the function); other shapes are not covered',
]
SEARCH = ['heapq keeps the least item in front and otherwise permutes the list', 'floats are real numbers', 'random() is a number in [0, 1), randrange and randint a number in their range',
          'polymat.projlen, nz_terms, proj_starts_ends and projectivise act image by image as C11 describes them', 'numpy slot stores and reads act on one slot']
REP = ['exact matrices form a monoid under product and power, whatever the representation', 'artin_gens_invs of a representation returns one image and one inverse image for each generator (relations: C12, bounded)',
       'polymat reads on classes (entries modulo p up to a power of v): the class of a product is the product of the classes; packing, projectivising, trimming and reducing modulo p keep the class (entrywise contracts: C11)',
       'the image of a braid is not zero, also modulo p', 'D to its order acts as a power of v', 'machine width of the packed arrays ignored']
BY_PROP = {
    'C04': ['NFTable.normal_forms yields each left-weighted chain of the length after the divisor once (evaluated on the real code; trusted in the proofs of its callers)',
            'a sum over a map made from distinct keys is the sum over the list of keys',
            'the table contract, including the list of divisors that may follow one (C02)', 'rand.choice returns an item of the list'],
    'C06': ['in a crossingless matching the number of dots is even and arcs join dots of different parity (proved by induction in pyvc/lemmas.py)',
            'coefficients of linear combinations are elements of a commutative ring; the product of combinations is associative (powers only)',
            'the shape, composite and trace of a diagram, as seen by linear combinations, are functions of the diagram (proved separately for the diagrams themselves)'],
    'C07': ['gluing two crossingless matchings along their middle dots gives a crossingless matching', 'following a path from an outer dot ends (termination of loops is not verified)',
            'connected components of the middle dots: induction over connection, and a path with an end visits no loop (definition of component, Loops in specs/tl.py)',
            'in a crossingless matching the number of dots is even and arcs join dots of different parity (proved by induction in pyvc/lemmas.py)'],
    'C11': ['numpy as modelled in pyvc/nd.py: shapes, basic indexing and slices, zeros, any, all, argmax, min, max, where, matmul, concatenate; array entries are elements of an ordered commutative ring (machine width ignored)',
            'the entry (i, j) of a matrix with c columns is a function of c, i and j, in range when i and j are'],
    'C12': REP[:2],
    'C13': REP,
    'C14': SEARCH, 'C15': SEARCH, 'C17': SEARCH + ['the table of statistics is read by the criterion only'],
    'C10': ['the product of matrices over a commutative ring is associative, with the identity matrix as unit (used for powers only)'],
}
FILES = {
    'C01': ['peyl.braid'], 'C02': ['peyl.braid'], 'C03': ['peyl.braid'], 'C04': ['peyl.braid'], 'C05': ['peyl.permutations'], 'C06': ['peyl.noncrossing'],
    'C07': ['peyl.tl'], 'C08': ['peyl.lpoly'], 'C09': ['peyl.poly'], 'C10': ['peyl.matrix'], 'C11': ['peyl.polymat'], 'C12': ['peyl.jonesrep'], 'C13': ['peyl.jonesrep'],
    'C14': ['peyl.bucketing', 'peyl.braidsearch'], 'C15': ['peyl.bucketing', 'peyl.braidsearch'], 'C16': ['search'], 'C17': ['peyl.braidsearch'],
}


def uncovered(repo, prop, functions):
    """Functions of the anchored files that neither have a contract proved here nor are inlined in one."""
    seen = set(functions)
    for f in functions.values():
        seen |= set(f['inlined'])
    out = []
    for m in FILES.get(prop, []):
        mod = repo.modules.get(m)
        if mod is None:
            continue
        for q in mod.all_functions():
            if q not in seen:
                out.append(q)
    return sorted(out)
