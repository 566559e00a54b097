#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (a property is claimed when sa/rules has its check)"""
import json
import os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
S = 'src/src/structure/'
SB = S + 'bases/'
HS = 'src/header/EasyFactorGraph/structure/'
P = []


def prop(i, title, statement, over, q, why, files, mech, tech=None, note=None, na=None):
    P.append(dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), tech=tech, note=note, na=na))


prop('C01', 'Queries never answer from an outdated propagation',
     'After any change of a model (a factor inserted, an evidence set, changed or removed, weights changed) the result of a previous belief '
     'propagation is never used again: every marginal, MAP or joint query re-propagates, with the kind of propagation (sum or max) that it needs and starting from no message of an earlier one. '
     'This also holds when the changing operation, or a propagation, ends with an exception.',
     ['histories', 'inputs'], 'every history of public operations on any model, exceptional exits included',
     'the tests sample a few histories; a path that forgets the invalidation shows only in the sequence query, that change, query',
     [SB + 'BeliefAware.cpp', SB + 'FactorsAware.cpp', S + 'EvidenceManager.cpp', S + 'QueryManager.cpp', 'src/src/trainable/FactorsTunableManager.cpp'],
     [('invalidation of the stored propagation result', HS + 'bases/BeliefAware.h'), ('propagation on demand', SB + 'BeliefAware.cpp')],
     'inlined path-sensitive effect/typestate analysis of every public operation',
     'all the paths of the public operations of the model classes, with calls inlined; loops by invariant; trusts the front end and the models of the standard containers')

prop('C02', 'Cached data is rebuilt or dropped when what it derives from changes',
     'Whenever an operation changes the unary factors of a node, its observed neighbours or their observed values, the connections, the clusters or the weights, '
     'everything the model keeps that derives from them (merged unaries of a hidden node, messages from observed to hidden nodes, message passing order of a '
     'cluster) is dropped or recomputed by that same operation. A later query, sampling or gradient therefore never combines new factors, evidences or weights with '
     'data computed from the old ones.',
     ['histories', 'inputs'], 'every history of public operations on any model',
     'a stale cache shows only for particular sequences (query, then that change on a neighbour, then query again)',
     [S + 'EvidenceManager.cpp', SB + 'FactorsAware.cpp', S + 'Types.cpp', 'src/src/trainable/FactorsTunableManager.cpp'],
     [('caches of the nodes and of the clusters', HS + 'Types.h'), ('their reset', SB + 'FactorsAware.cpp')],
     'inlined path-sensitive effect analysis with obligations opened by a change and closed by the reset or recomputation',
     'all the completing paths of the public operations, calls inlined; whole-range loops close obligations on every element')

prop('C03', 'Every hidden variable is in exactly one cluster, the one of its connections',
     'At the end of every operation each variable of the model is either observed or in exactly one cluster, and two hidden variables that are connected are in the '
     'same cluster, so that hidden and observed variables always add up to all the variables. Observing a variable takes it out of its cluster, which is split as the '
     'remaining connections say; releasing it or inserting a factor joins the clusters that become connected, without losing any variable.',
     ['histories', 'inputs'], 'every history of insertions and evidence changes on any graph',
     'a variable lost or shared by two clusters shows only for particular shapes of graph and orders of the operations',
     [S + 'EvidenceManager.cpp', SB + 'FactorsAware.cpp', S + 'Types.cpp', SB + 'StateAware.cpp'],
     [('clusters of hidden nodes', HS + 'Types.h'), ('computation of clusters', S + 'Types.cpp'), ('update at evidences', S + 'EvidenceManager.cpp')],
     'inlined path-sensitive effect analysis of nodes, evidences, connections and clusters; the clustering function by its own loop rules',
     'all the completing paths of the public operations, calls inlined; ways of clustering that are not recognised are reported as undecided')

prop('C04', 'Each evidence is seen by both endpoints of every connection, and undone fully',
     'Setting an evidence moves every connection of that variable, seen from both of its endpoints, from the inferred side to the observed side, and removing it '
     'moves every one of them back; the connections between two observed variables follow the same rule. The observed side carries the message of the value observed. No connection is lost, duplicated or left on the '
     'wrong side, whatever the order in which evidences are set, changed and removed and factors are inserted.',
     ['histories', 'inputs'], 'every history of insertions and evidence changes on any graph',
     'a connection left on one side only shows for graphs and orders of evidence changes the tests do not build',
     [S + 'EvidenceManager.cpp', SB + 'FactorsAware.cpp', S + 'Types.cpp'],
     [('active and disabled connections of a node', HS + 'Types.h'), ('their move', S + 'EvidenceManager.cpp')],
     'inlined path-sensitive effect analysis pairing each move of a connection with that of its mirror',
     'all the completing paths of the public operations, calls inlined; each change of a connection opens the obligation on the other endpoint')

prop('C05', 'A refused operation leaves the model unchanged',
     'When inserting one factor, setting or removing evidences, or setting weights is refused with an error, the model is exactly as before the call: '
     'no variable, connection, factor, evidence, cluster or weight was added, removed or altered. The batch operations on evidences and weights are '
     'validated as a whole before the first change.',
     ['inputs', 'histories'], 'every invalid argument, in every state of the model',
     'the tests check that the error is thrown, for a few inputs, and seldom look at the model afterwards',
     [SB + 'FactorsAware.cpp', S + 'EvidenceManager.cpp', S + 'FactorsConstManager.cpp', 'src/src/trainable/FactorsTunableManager.cpp',
      'src/src/model/ConditionalRandomField.cpp'],
     [('validation before the first change', SB + 'FactorsAware.cpp')],
     'path-sensitive effect-before-throw analysis, calls inlined',
     'every explicit throw reachable from the covered operations, on all paths; exceptions of the standard library are out of scope')

prop('C06', 'Invalid arguments are refused with an error',
     'Variables of null size or empty name, groups with repeated names, combinations of the wrong length or out of range, negative images, evidences out of '
     'range or on unknown variables, weight vectors of the wrong length, empty or uneven train sets, percentages out of range, null pointers and factors with '
     'more than two variables (or with a variable that clashes by name with another one of the model) are never accepted.',
     ['inputs'], 'every value of the arguments of the public constructors and operations',
     'the tests try single invalid values (boundary values and second positions are not all covered)',
     ['src/src/categoric/Group.cpp', 'src/src/categoric/Variable.cpp', 'src/src/factor/Function.cpp', 'src/src/factor/Factor.cpp', S + 'SpecialFactors.cpp',
      S + 'EvidenceManager.cpp', 'src/src/trainable/TrainSet.cpp', SB + 'FactorsAware.cpp'],
     [('guards that throw', 'constructors and setters of the files above')],
     'dominating-guard analysis: the conditions tested on every completing path imply the validity of the arguments',
     'every completing path of the listed operations; quantified guards (loops) are recognised when they cover the whole range; conditions that are not understood are counted as undecided, not as violations')

prop('C07', 'Each belief combines all of its contributions, each exactly once',
     'The belief of a variable multiplies all its unary factors, the messages of all its observed neighbours and the messages of all its hidden neighbours, each once and nothing else; '
     'a message from a node to a neighbour combines all of that but what came from the recipient, through the factor between the two, with a sum or a maximum as asked by the '
     'query, and there is one message for each direction of each connection. A joint distribution of a group multiplies, for every variable of it, what comes from outside of the group and each factor '
     'inside of it, and a MAP or marginal answer is the one of the variable asked for (an observed variable answers with its value).',
     ['inputs', 'histories'], 'every graph (number of factors, neighbours and evidences of each node), every query',
     'the tests sample graphs with few factors per variable; a contribution left out or counted twice shows only for particular numbers or kinds of neighbours',
     [S + 'Types.cpp', S + 'QueryManager.cpp', S + 'SpecialFactors.cpp', 'src/src/trainable/tuners/BinaryTuner.cpp', 'src/src/trainable/tuners/UnaryTuner.cpp'],
     [('merging of unary factors', S + 'SpecialFactors.cpp'), ('messages of a cluster', S + 'Types.cpp')],
     'comprehension (bag) analysis: contents of every merged list as ranges over the connections of a node with their exclusions, compared with the required ones',
     'all the sites that merge factors; numerical results are not considered')

prop('C08', 'Tasks that run at the same time never interfere',
     'Whatever the number of threads and the schedule, a task handed to the pool writes only what no other task of the same batch accesses: its own result, the slot of the thread running it, or the one message (or sampled value) it is in charge of. '
     'Two messages (or variables) are updated in the same batch only if neither reads what the other writes, one batch runs at a time, and the functions that tasks run keep no state shared between threads.',
     ['schedules', 'inputs'], 'every graph, number of threads and interleaving',
     'a race shows up only under a particular interleaving and graph',
     ['src/src/structure/BaselineLoopyPropagator.cpp', 'src/src/structure/GibbsSampler.cpp', 'src/src/structure/bases/BeliefAware.cpp', 'src/src/model/RandomField.cpp', 'src/src/model/ConditionalRandomField.cpp', 'src/src/trainable/tuners/BaseTuner.cpp'],
     [('order of the messages', 'src/src/structure/BaselineLoopyPropagator.cpp'), ('order of the samples', 'src/src/structure/GibbsSampler.cpp'), ('gradients', 'src/src/model/RandomField.cpp')],
     'effect analysis of the body of every task (owned, per thread, guarded slot, shared), matching of what a batch admits with what it records, search of the functions reached from tasks for shared static or mutable state',
     'a batch is run as C09 states; the graph does not change while a batch runs')

prop('C09', 'The thread pool runs each task once and returns after the last one',
     'Whatever the number of threads and of tasks, a parallel run executes every task exactly once, tells it the number of the thread that runs it, and returns only when '
     'all of them have finished; two runs on the same pool never overlap. What the threads share is read and written without races, and destroying a pool first tells '
     'all its threads to stop and then waits for each of them.',
     ['schedules', 'inputs'], 'every interleaving of the threads, any number of threads and of tasks, tasks that do not throw',
     'the tests can sample a few interleavings, on one machine, of a few numbers of threads and tasks',
     [SB + 'PoolAware.cpp', HS + 'bases/PoolAware.h'],
     [('task slot of a worker and stop flag', HS + 'bases/PoolAware.h')],
     'residue-class analysis of the strided loops, order and memory order of the atomic operations, lexical extent of the lock, types of the shared members',
     'all the statements of the pool and of its workers; tasks are assumed not to throw')

prop('C10', 'The threads asked for an operation serve that whole operation and no other',
     'Every operation that takes a number of threads does all its parallel work on a pool of exactly that many threads, passing the number on unchanged to the operations it '
     'relies on. When it ends, normally or not, the model is back to a single thread; 0 threads are refused leaving the model usable.',
     ['inputs', 'histories'], 'every public operation with a number of threads, every value of it, whatever was called before',
     'results do not depend on the number of threads, so the tests cannot see how many were used or left running',
     [SB + 'PoolAware.cpp', HS + 'QueryManager.h', S + 'GibbsSampler.cpp', 'src/src/trainable/FactorsTunableManager.cpp'],
     [('scoped activation of the pool', HS + 'bases/PoolAware.h')],
     'lexical scope (RAII) analysis of the activation along the call graph, with summaries of the functions that resize the pool',
     'all the public operations that take a number of threads and reach the pool')

prop('C12', 'Factors that share a weight always have the same weight and gradient',
     'Tunable factors inserted with a shared weight hold the same weight at all times: one that joins a group takes the weight the group has, and a weight set later '
     'goes to every factor of the group, whatever their number. The gradient of a shared weight is the sum of those of all the factors of the group, and the groups stay '
     'the same when a model is absorbed or made conditional.',
     ['histories', 'inputs'], 'every history of insertions, absorptions and weight changes, groups of any size',
     'the tests use groups of two factors; a group that loses one factor shows only with more of them, or after absorption',
     ['src/src/trainable/FactorsTunableManager.cpp', 'src/src/trainable/tuners/CompositeTuner.cpp', 'src/src/model/ConditionalRandomField.cpp'],
     [('tuners of shared weights', 'src/header/EasyFactorGraph/trainable/tuners/CompositeTuner.h'), ('joining of a group', 'src/src/trainable/FactorsTunableManager.cpp')],
     'symbolic loop summaries of the composite; must-analysis of the joining paths, calls inlined',
     'all the paths of the functions that build, fill and use the groups; loops by their index range')

prop('C13', 'Weights, gradients and clusters keep one order, samples meet their variables',
     'The lists of weights, of gradients and of tunable clusters follow one same order, which later insertions do not change: the k-th weight that is set, the k-th that '
     'is read and the k-th gradient belong to the k-th cluster. In the gradient of a conditional model each observed variable takes from each sample the value in its own '
     'position among all the variables, and the given observed values go to the observed variables in their order; no gradient is computed from the samples of an earlier call.',
     ['inputs', 'histories'], 'every model, any number of tunable factors, observed variables and samples, every sequence of calls',
     'a position mixed up shows only when weights differ, variables were inserted in particular orders, or the same object is used for two train sets',
     ['src/src/trainable/FactorsTunableManager.cpp', 'src/src/model/RandomField.cpp', 'src/src/model/ConditionalRandomField.cpp', 'src/src/trainable/tuners/BaseTuner.cpp'],
     [('list of tuners', 'src/header/EasyFactorGraph/trainable/FactorsTunableManager.h'), ('positions of the evidences', 'src/header/EasyFactorGraph/model/ConditionalRandomField.h')],
     'index analysis: symbolic summaries of the loops and tasks that fill and read the sequences',
     'every element of the sequences as a function of its index; what is filled in a way not understood is undecided')

prop('C14', 'An accepted factor takes part in the model exactly once and is listed',
     'Every insertion that completes puts that factor in the set of all factors, in exactly one of the constant and tunable sets, and exactly once in the graph: '
     'in the node of its variable, or in both endpoints of the connection between its two variables, observed or not. A tunable factor also gets exactly one tuner, '
     'its own or inside the one it shares the weight with; inserting twice the same factor is refused and nothing already inserted is ever dropped.',
     ['inputs', 'histories'], 'every insertion of a factor, whatever its variables, its copies and the state of the model',
     'the tests insert few combinations of kinds of factor and observed variables, and look at sizes only',
     [SB + 'FactorsAware.cpp', S + 'FactorsConstManager.cpp', 'src/src/trainable/FactorsTunableManager.cpp', 'src/src/trainable/tuners/CompositeTuner.cpp'],
     [('registers of the factors', HS + 'bases/FactorsAware.h'), ('tuners', 'src/header/EasyFactorGraph/trainable/FactorsTunableManager.h')],
     'must-effect analysis on the completing paths of the insertions, calls inlined',
     'all the completing paths of the insertions of constant and tunable factors')

prop('C17', 'Every value is read and written at the place of its own variable',
     'Whatever the order of the variables in the group of a factor, each value of a combination meets the variable it belongs to: when a binary factor is reduced by an observed value, '
     'when a message is computed (as a sum or a maximum over all the values of the sender, for all the values of the recipient), when factors are merged or permuted, when a factor is looked up '
     'with a combination of a bigger group, and in the gradient of a binary factor. These operations use the actual images (weights applied) of the factors, except for the permutation and the averages of a gradient, that use the raw ones.',
     ['inputs'], 'every order of the variables in the groups, all sizes of the variables, all factors',
     'with symmetric factors or variables of the same size, as in most tests, swapped places give the same result',
     [S + 'SpecialFactors.cpp', 'src/src/factor/Factor.cpp', 'src/src/factor/ImageFinder.cpp', 'src/src/trainable/tuners/BinaryTuner.cpp', S + 'EvidenceManager.cpp', SB + 'FactorsAware.cpp'],
     [('messages and reduced factors', S + 'SpecialFactors.cpp'), ('lookup in a bigger group', 'src/src/factor/ImageFinder.cpp')],
     'index-domain typing: symbolic positions evaluated for each place a variable may have in a factor, place-of-variable terms for lookups and permutations',
     'all the sites that build combinations or read them by position; equality of variables is by identity')

prop('C18', 'A factor gives back the images it was given, each at its combination',
     'Whatever the number of images and the way they are stored, reading a combination returns the last image set for it (0 if none was, or after clearing the factor), and enumerating a factor visits every combination of its variables exactly once, '
     'the last variable varying fastest, with its own image, weighted only when asked. Copies and clones of factors have the images and the weight of the origin, correlating factors have image 1 exactly where all the values are equal '
     '(anti correlating ones exactly elsewhere), and the probabilities of a factor are all its images divided by their sum, uniform when that is null.',
     ['inputs'], 'every group, size, number and order of insertion of the images',
     'the storage changes with the number of images, which the tests exercise for a few sizes only',
     ['src/src/factor/Function.cpp', 'src/header/EasyFactorGraph/factor/Function.h', 'src/src/categoric/GroupRange.cpp', 'src/src/factor/Factor.cpp', 'src/src/factor/FactorExponential.cpp', 'src/src/factor/Immutable.cpp'],
     [('storages', 'src/src/factor/Function.cpp'), ('combinations of a group', 'src/src/categoric/GroupRange.cpp')],
     'symbolic summaries of both storages: recurrence of the position of a combination against the row-major one, resolution by case of the values read, obligations per instance of the enumerations',
     'arithmetic on positions does not overflow; standard containers behave as documented')

prop('C21', 'Samples are as many as asked, values in place, drawn given the neighbours',
     'Sampling returns exactly as many combinations as asked, after the transient that was asked and with at least one evolution of the whole model between one and the next. In each of them the k-th value is the one of the k-th variable, '
     'and every observed variable has its observed value. An evolution draws every hidden variable exactly once, from the product of its unary factors (observed neighbours included) and of all the factors shared with its hidden neighbours, '
     'each reduced by the current value of that neighbour; a draw gives the first value whose cumulated probability reaches it, and a seed that is given restarts every random engine.',
     ['inputs', 'schedules'], 'every model, evidence, number of samples, of threads and seed',
     'the tests compare few frequencies of few small models with a loose tolerance',
     [S + 'GibbsSampler.cpp', 'src/header/EasyFactorGraph/structure/GibbsSampler.h'], [('sampler', S + 'GibbsSampler.cpp')],
     'symbolic summary of the sampling (calls and tasks inlined): obligations on loops, lists, places and factors of each task',
     'random engines and distributions of the standard library; the product of factors is the one of C07 and C17')

prop('C90', 'Marginals are exact on trees',
     'On models whose hidden part has no loops the computed marginals, MAP assignments and joint marginals equal the exact ones up to rounding.',
     ['inputs'], 'every acyclic model and evidence', 'the tests compare a dozen models with closed forms',
     [SB + 'BeliefAware.cpp', S + 'QueryManager.cpp'], [('message passing', SB + 'BeliefAware.cpp')],
     na='numerical result over runtime values: no structural argument in reach bounds it (the structural parts are C01-C04, C17)')
prop('C91', 'Gibbs samples converge to the distribution of the model',
     'The empirical frequencies of the drawn samples converge to the conditional distribution of the model.',
     ['inputs', 'schedules'], 'every model, evidence, seed', 'tests use a fixed tolerance and few models',
     [S + 'GibbsSampler.cpp'], [('sampler', S + 'GibbsSampler.cpp')],
     na='a statistical statement on runtime values; outside static analysis')
prop('C92', 'Gradients are the derivatives of the likelihood',
     'The weights gradient is the derivative of the log likelihood of the train set with respect to the weights.',
     ['inputs'], 'every model and train set', 'tests check that training improves the likelihood on few models',
     ['src/src/trainable/FactorsTunableManager.cpp'], [('tuners', 'src/src/trainable/tuners')],
     na='numerical identity over runtime values')
prop('C93', 'Every operation of the thread pool terminates',
     'A batch of tasks given to a pool always completes, and the destruction of a pool always returns.',
     ['schedules'], 'every schedule', 'tests see few schedules',
     ['src/src/structure/bases/PoolAware.cpp'], [('busy waiting', 'src/src/structure/bases/PoolAware.cpp')],
     na='liveness depends on scheduler fairness (busy waiting); only the structural safety part is decidable')


def main():
    have = lambda i: os.path.exists(os.path.join(H, 'sa', 'rules', i.lower() + '.py'))
    out, checks, na = [], [], []
    for p in sorted(P, key=lambda p: p['id']):
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(p['title']) <= 80, p['title']
        if p['na']:
            na.append(dict(property=p['id'], reason=p['na']))
        elif have(p['id']):
            checks.append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='python3 check.py %s --thorough' % p['id'],
                               evidence_file='evidence/%s.json' % p['id'], technique='static analysis: ' + p['tech'], level='other', level_note=p['note']))
        else:
            continue
        out.append(d)
    with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
        for d in out:
            f.write(json.dumps(d) + '\n')
    with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='bash extract/build.sh', checks=checks, not_applicable=na), f, indent=1)
        f.write('\n')


main()
