#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are edited); checks that every anchor exists."""
import json, os, ast
REPO = os.environ.get('VERIF_REPO', '/repo')
P = []


def names(path):
    out = set()
    def walk(body, pre):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(pre + n.name)
                if isinstance(n, ast.ClassDef):
                    walk(n.body, pre + n.name + '.')
    walk(ast.parse(open(os.path.join(REPO, path)).read()).body, '')
    return out


def p(id, title, statement, over, text, why, mech):
    assert len(title) <= 80 and statement.count('. ') <= 2, (id, len(title), statement.count('. '))
    m = []
    for path, ns in mech.items():
        have = names(path)
        for n in ns.split():
            assert n in have, (id, path, n)
            m.append(dict(name=n, where=path))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=list(mech), mechanism=m)))


BR, PE, NC, TL, LP, PO, MA, PM, JR, BK, BS = ('peyl/%s.py' % x for x in 'braid permutations noncrossing tl lpoly poly matrix polymat jonesrep bucketing braidsearch'.split())

p('C01', 'Braid arithmetic is group arithmetic, and every result is in normal form',
  'Multiplying, inverting and taking integer powers of braids in either Garside normal form (classical or dual, on two or more strands) returns the normal form of the group product, inverse and power. '
  'Every braid object has factors in normal form: no Garside element and no identity among them, and every adjacent pair left-weighted; constructing a braid from any other factors is refused. '
  'Hence two braids are equal as objects exactly when they are equal in the braid group.',
  ['inputs'], 'all supported strand counts n >= 2, all pairs of braids of any length and Garside power, all integer exponents',
  'The tests multiply a few generators on 3-5 strands; group laws and uniqueness quantify over all words of all lengths.',
  {BR: 'NFTable.normalise_factors NFTable.product_normalised_factors NFTable.is_factors_normalised NFBase.__mul__ NFBase.inv NFBase.__pow__ NFBase.__post_init__'})
p('C02', 'The Garside tables are a correct Garside structure for every strand count',
  'For every supported number of strands the table of divisors of the Garside element is complete and free of repetitions; renormalising a pair of divisors preserves its product and yields a left-weighted pair, '
  'and the set of divisors that may follow a given one is exact. Left and right complements multiply with the divisor to the Garside element, the conjugation tables are conjugation by the powers of the Garside element, '
  'and the word stored for a divisor spells it. Both the classical (permutation) and the dual (noncrossing partition) tables satisfy this, and sizes that cannot be handled are refused.',
  ['inputs', 'configurations'], 'every table entry and every pair of divisors, for every strand count n >= 2, both Garside structures',
  'Tests look at a handful of products on up to 5 strands; a table entry that is wrong for one pair of divisors on 6 strands is never touched.',
  {BR: 'PermTable.create NParTable.create', PE: 'Permutation.__mul__ Permutation.inv', NC: 'NPar.left_complement NPar.right_complement NPar.artin_word'})
p('C03', 'Conversions between words and the two Garside normal forms are faithful',
  'Reading a word in the Artin generators (with any integer exponents) yields the normal form of the braid it spells, and writing a braid as a word spells that braid. '
  'Converting between the classical and dual normal forms preserves the braid in both directions, and so does building a braid from permutations, from noncrossing partitions, or from a canonical decomposition; '
  'the generators and inverse generators offered are those braids.',
  ['inputs'], 'all words, all braids, all supported strand counts n >= 2',
  'Tests convert a few fixed words; exponents, negative powers and long words are not sampled.',
  {BR: 'GNF.from_artin_word DGNF.from_artin_word GNF.from_perm GNF.from_perm_seq DGNF.from_npar DGNF.from_npar_seq NFBase.artin_word NFBase.magma_artin_word GNF.to_DGNF DGNF.to_GNF NFBase.canonical_decomposition '
       'NFBase.artin_gens DGNF.bkl_gens BraidGroup.gens BraidGroup.invs BraidGroup.from_gnf_pair BraidGroup.positive_lift BraidGroup.from_npar'})
p('C04', 'Enumeration, counting, sampling and extension of normal forms are exact',
  'Enumerating the normal forms of a given length (optionally with a given Garside power) produces each of them exactly once and nothing else, the counting functions return their number, and sampling returns one of them. '
  'The descendants and suffixes of a braid are exactly its normal-form extensions, each once.',
  ['inputs'], 'all lengths, strand counts n >= 2, starting braids and random sources',
  'Tests compare counts for a couple of small lengths; completeness and absence of duplicates quantify over all lengths and starting points.',
  {BR: 'NFTable.normal_forms NFTable.count_normal_forms NFTable.sample NFBase.nf_descendants NFBase.nf_suffixes NFBase.all_of_length NFBase.count_all_of_length NFBase.sample BraidGroup.all_of_garside_length BraidGroup.count_all_of_garside_length BraidGroup.sample_braid_perm'})
p('C05', 'Permutation algebra: group laws, length, descents and reduced words',
  'Permutations multiply and invert as the symmetric group does; Coxeter length is the number of inversions, and the descent sets are the positions where multiplying by an adjacent transposition shortens. '
  'Every reduced-word, cycle, cycle-type, parity, transposition, longest-element and enumeration function returns what its name says, every permutation produced is a permutation, and data that is not a permutation is refused.',
  ['inputs'], 'all permutations of all sizes',
  'Tests exercise permutations only through braids on at most 5 strands; group and length laws quantify over all sizes.',
  {PE: 'is_permutation identity transposition longest_element is_longest_element disjoint_cycles cycle_type parity length inverse compose right_descent_set left_descent_set is_right_descent is_left_descent shortlex from_cox is_descending_cycles '
       'is_parallel_descending_cycles SymmetricGroup.reflections SymmetricGroup.from_cycle SymmetricGroup.from_cycles SymmetricGroup.elements Permutation.__mul__ Permutation.inv Permutation.shortlex'})
p('C06', 'Noncrossing partitions correspond exactly to divisors of the long cycle',
  'Converting a noncrossing partition to a permutation or to blocks and back is the identity, and the permutations obtained are exactly the divisors of the long cycle. '
  'Enumeration lists each noncrossing partition once (Catalan many), left and right complements satisfy partition times complement equals the long cycle, and the braid word of a partition lifts its permutation. '
  'Crossing or malformed inputs are refused.',
  ['inputs'], 'all noncrossing partitions of all sizes, all permutations and blocks offered for conversion',
  'The test checks counts for small sizes; bijectivity and complement laws quantify over all partitions.',
  {NC: 'NPar.__post_init__ NPar.from_permutation NPar.to_permutation NPar.components NPar.edges NPar.all_of_size NPar.left_complement NPar.right_complement NPar.from_components NPar.artin_word catalan'})
p('C07', 'Temperley-Lieb diagrams compose by gluing and form an algebra',
  'Composing two diagrams yields the diagram obtained by gluing, with exactly the closed loops removed and counted, and never a crossing diagram; composition and tensor product are associative with identities, and flipping reverses composition. '
  'Linear combinations form an algebra in which a closed loop is worth v + 1/v, the generators satisfy the Temperley-Lieb relations for every number of strands, and the bases and cell modules consist of exactly the diagrams they should. '
  'Crossing or malformed diagrams and incompatible shapes are refused.',
  ['inputs'], 'all composable diagrams of all sizes and all linear combinations of them',
  'Tests check relations for small strand counts; gluing correctness quantifies over all pairs of diagrams.',
  {TL: 'compose insert is_crossingless_matching generate_sequences trace_count through_strands cell_basis cell_dimension TLDiag.__mul__ TLDiag.__matmul__ TLDiag.flip TLMor.__mul__ TLMor.__add__ TLMor.__pow__ TLMor.flip TLMor.trace TLExtDiag.__mul__ TLExtDiag.__matmul__ TLCell.project_leftmult_matrix'})
p('C08', 'Laurent polynomial arithmetic is exact, on canonical representatives',
  'Sums, differences, negations, products (also with integers), nonnegative powers and inverses of units of integer Laurent polynomials are the true ring results; inverting anything else is refused. '
  'Every Laurent polynomial the library returns is stored in the one canonical form (no zero coefficient at either end, zero stored uniquely), so equality of objects is equality of polynomials. '
  'Degree, valuation, evaluation, coefficientwise maps and printing agree with it.',
  ['inputs'], 'all Laurent polynomials with any valuation, any number of coefficients of any size, and all exponents',
  'The existing tests evaluate a few fixed polynomials; ring laws and canonical form quantify over all coefficient lists.',
  {LP: 'LPoly.__init__ LPoly.is_zero LPoly.is_unit LPoly.valuation LPoly.degree LPoly.evaluate LPoly.fmt LPoly.__add__ LPoly.__sub__ LPoly.__rsub__ LPoly.__neg__ LPoly.__mul__ LPoly.__pow__ LPoly.__truediv__ LPoly.map LPoly.coerce LPoly.quantum_integer'})
p('C09', 'Polynomial arithmetic and division with remainder are exact',
  'Sums, differences, products and powers of integer polynomials are the true ring results in canonical form (no trailing zero coefficient). '
  'Division with remainder by a monic polynomial satisfies dividend = quotient * divisor + remainder with the remainder of smaller degree, and exact division returns the quotient exactly when there is one. '
  'Evaluation agrees with the coefficients, printing shows every nonzero term with its true coefficient, and the cyclotomic, Chebyshev and cosine minimal polynomials are those of their definitions.',
  ['inputs'], 'all integer polynomials of any degree, all divisors and exponents',
  'Only doctests on two or three polynomials exist; division and ring laws quantify over all of them.',
  {PO: 'Poly.__init__ Poly.deg Poly.is_zero Poly.evaluate Poly.__repr__ Poly.__add__ Poly.__sub__ Poly.__neg__ Poly.__mul__ Poly.__pow__ Poly.__divmod__ Poly.__truediv__ Poly.cyclotomic Poly.chebyshevT Poly.minpolycos'})
p('C10', 'Matrices over any commutative ring compute as matrices',
  'Matrix products, differences, powers, multiples, transposes, traces, rows, columns, entrywise maps and the special matrices (identity, zero, scalar, vectors) have the entries the definitions of linear algebra give, for rectangular as well as square shapes. '
  'Incompatible shapes and indices out of range are refused, and the predicates (square, symmetric, integral) are true exactly when the entries say so.',
  ['inputs'], 'all shapes and entries',
  'Tests use square representation matrices of a few sizes; non-square shapes and predicates are never exercised.',
  {MA: 'Matrix.from_rows Matrix.identity Matrix.zero Matrix.row_vector Matrix.col_vector Matrix.col_coord_vector Matrix.scalar Matrix.row Matrix.column Matrix.rows Matrix.__getitem__ Matrix.__mul__ Matrix.__rmul__ Matrix.__pow__ Matrix.__sub__ Matrix.trace Matrix.is_square Matrix.is_symmetric Matrix.is_integral Matrix.transpose Matrix.map Matrix.entries'})
p('C11', 'Packed polynomial arrays represent Laurent polynomial matrices faithfully',
  'Packing a matrix of Laurent polynomials into a dense integer array and unpacking it is the identity (up to one power of the variable when projective packing is asked for), and packing that would lose terms is refused. '
  'Multiplication, padding, trimming, stacking, concatenation and normalisation on the packed form, with any leading batch axes, agree with the same operation on the matrices. '
  'The degree, valuation, term count and projective length reported for an array are those of its nonzero coefficients (projective length zero for a zero array).',
  ['inputs'], 'all matrices of Laurent polynomials, all array shapes with leading batch axes, all entries that do not overflow the machine type',
  'Tests pack a few representation matrices; valuation bookkeeping and padding quantify over all shapes.',
  {PM: 'eye trim trim_left mul pack zeropad concatenate to_matrix from_matrix projectivise degmax valmin nz_terms projrank rhogap efflen projlen proj_starts_ends'})
p('C12', 'Every shipped representation is a representation of the braid group',
  'For every Burau, Lawrence-Krammer, Jones and Temperley-Lieb representation the library builds, the images of the Artin generators satisfy the braid relations and the images given for the inverses are their inverses; in the Temperley-Lieb algebra and its cell modules the i-th generator acts as 1 - v e_i. '
  'Evaluating a braid, in any form the library accepts, is multiplicative and depends neither on the word nor on the normal form chosen.',
  ['inputs', 'configurations'], 'all strand counts n >= 2, all two-row partitions, all unit parameters, characteristic zero or any prime, all braids',
  'Tests check relations on a few strand counts, and evaluation on sampled short braids.',
  {JR: 'tl_gens_invs cell_matrix cell_matrices RepBase.evaluate RepBase.evaluate_artin_word JonesCellRep.dimension JonesCellRep.artin_gens_invs LKBRep.dimension LKBRep.artin_gens_invs', BS: 'tl_gens_invs JonesSummand.artin_gens_invs', PM: 'burau_generator_v2'})
p('C13', 'Fast batch evaluation agrees with exact evaluation up to a power of v',
  'Evaluating many braids of equal length through the packed arrays, with or without reduction modulo p, gives for every braid in the batch the exact image (reduced modulo p) up to multiplication by a power of the variable, '
  'for every Garside power and every length including zero; sequences of divisors that are not in normal form are evaluated as products. Batches of unequal lengths are refused.',
  ['inputs', 'configurations'], 'all non-empty batches, lengths, Garside powers, moduli and representations, as long as the machine integers do not overflow',
  'The bucketing test samples random braids for one representation; batch size one, length zero and negative powers are not covered.',
  {JR: 'RepBase.polymat_evaluate RepBase.polymat_evaluate_artin_word RepBase.polymat_evaluate_braid RepBase.polymat_evaluate_braids_of_same_length RepBase.polymat_evaluate_braid_integers_of_same_length RepBase.polymat_mul RepBase._polymat_delta_power RepBase._polymat_braid_factor RepBase.polymat_artin_gens_invs', PM: 'mul pack projectivise from_matrix'})
p('C14', 'Bucket search: every stored braid is genuine and filed with its true image',
  'However the bucket search is driven, every bucket holds at most its capacity of braids, each one is a normal form that was really offered and has the statistics the bucket is labelled with (length, projective length, ...), and the image stored beside it is its true image up to a power of v. '
  'Exhaustive bootstrapping offers every normal form up to the given length once, descending offers every extension of the braids in a bucket once, and the counts kept per bucket are the numbers of braids offered to it.',
  ['histories', 'inputs'], 'all sequences of search operations, policies, capacities and random seeds',
  'One test adds one braid to one tracker; the guarantee quantifies over all histories of operations.',
  {BK: 'Tracker.add_braids_images Tracker.nf_descendants Tracker.bootstrap_exhaustive Tracker.discard_bucket Tracker.valiate_buckets Tracker.stats Tracker.bucket_stats Tracker.hash_bucket Bucket.append_braid Bucket.replace_braid'})
p('C15', 'Reservoir policies keep a bounded, correctly chosen sample of the stream',
  'For every stream and every capacity of at least one, a bucket holds min(capacity, items offered) items and an item stays in its slot, beside its own image and weight, until a later item replaces it. '
  'The greedy policy keeps the first items and the eviction policy the items of greatest weight; the uniform policy lets the i-th item replace a uniformly chosen slot with probability capacity / i, and the weighted policy with probability capacity * weight / total weight so far (at most one). '
  'The other search engine keeps the first distinct items when it has no random source, and a uniform sample of the items when it has one.',
  ['histories', 'inputs'], 'all streams, weights, capacities and draws of the random source',
  'No test drives the policies; the guarantee quantifies over all histories and draws.',
  {BK: 'Tracker.add_braids_images Bucket.append_braid Bucket.replace_braid Bucket.show_reservoir', BS: 'Tracker.add_braids_images'})
p('C16', 'Braids survive storage: writing and reading back is the identity',
  'Any braid of either kind written to the database text form and read back is equal to the original, and a text that is not such a form is refused rather than turned into some braid.',
  ['inputs'], 'all braids of both kinds, all texts',
  'No test stores a braid; the round trip quantifies over all braids, and refusal over all texts.',
  {BR: 'adapt_braid convert_braid register_sqlite3_adapters'})
p('C17', 'The reservoir search driver keeps only genuine braids and images',
  'In the reservoir-based search, every braid kept for a given length and projective length is a normal form of that length, meets the criterion, and was really offered, and the image stored beside it is its true image up to a power of v, with that projective length. '
  'Buckets respect their capacity, descending, multiplying buckets and taking substrings offer exactly the braids they name, and the counts kept per bucket are the numbers of braids offered to it.',
  ['histories', 'inputs'], 'all sequences of search steps, criteria, capacities and random seeds',
  'No test runs this search engine.',
  {BS: 'Tracker.add_braids_images Tracker.nf_descendants Tracker.bucket_product Tracker.substrings Tracker.bootstrap_exhaustive Tracker.discard_bucket Tracker.valiate_buckets symmetric_table evaluate_braid_factors evaluate_braids_of_same_length evaluate_prefixes_of_same_length evaluate_braids sample_braids_images_upto_length all_of_length_below_1'})
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in P))
