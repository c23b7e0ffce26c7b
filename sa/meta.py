"""Technique, level note and reasons for MANIFEST.json."""
EFFECT = ("Context-sensitive points-to and effect analysis over the whole call graph, for all inputs and option values; "
          "trusts the analysis engine, the driver programs that call the public interface, and that objects returned by "
          "the system under learning are not written through. ")
PATH = ("Intraprocedural path analysis with inlining over symbolic terms: loops by invariant for the positive answer, a "
        "violation is an exact path; obligations that neither answer settles are reported as undecided in the evidence. ")
ELEM = ('Element-wise abstract interpretation of converters on an automaton given by its schema (opaque terms per state, input, '
        'transition and field; collections by binders); unsupported constructs are reported as undecided in the evidence. ')
META = {
    'C16': ('element-wise abstract interpretation of the writer and the loader over symbolic collections and text', ELEM),
    'C15': ('element-wise abstract interpretation of exporters and importers over symbolic collections', ELEM),
    'C23': ('element-wise abstract interpretation of conversions between model classes and from merged trees', ELEM),
    'C24': ('element-wise abstract interpretation of hypothesis construction from tables and trees', ELEM),
    'C01': ('path-sensitive dataflow (symbolic terms, loop invariants by anti-unification)', PATH),
    'C02': ('typestate of the test session with path-sensitive dataflow', PATH),
    'C04': ('path-sensitive dataflow on counters as linear terms', PATH),
    'C25': ('path-sensitive dataflow: comparison of the outputs on every path between two inputs', PATH),
    'C26': ('path-sensitive dataflow of answers and the words they belong to', PATH),
    'C05': ('typestate and path-sensitive dataflow of query functions', PATH),
    'C06': ('path-sensitive dataflow of forwarding wrappers and trace stores', PATH),
    'C07': ('path-condition analysis of storing functions', PATH),
    'C08': ('path-sensitive dataflow and typestate of the learning loop', PATH),
    'C21': ('path-sensitive dataflow of step and step_to', PATH),
    'C22': ('path-sensitive dataflow of pre and step', PATH),
    'C19': ('reachability under constant propagation: one abstract run per option value', EFFECT),
    'C20': ('path-sensitive dataflow on the reported counters', PATH),
    'C03': ('points-to / effect analysis (abstract interpretation of the syntax tree)', EFFECT),
    'C09': ('reachability of output calls under constant propagation of the print level', EFFECT),
    'C10': ('points-to / effect analysis of caller-owned objects', EFFECT),
    'C11': ('points-to analysis with propagation of hash order, clock and entropy to observable places', EFFECT),
    'C12': ('effect analysis of process-wide (module, class, default-argument) objects', EFFECT),
    'C13': ('points-to / effect analysis of query operations and path-sensitive dataflow of output queries', EFFECT),
    'C14': ('points-to / effect analysis of step and reset and path-sensitive dataflow', EFFECT),
    'C17': ('call-graph reachability of effect primitives', EFFECT),
    'C18': ('exception-flow analysis over the resolved call graph', EFFECT),
}
NOT_APPLICABLE = {
    'N01': 'depends on the values computed by table and tree refinement for arbitrary systems; no static abstraction in reach '
           'bounds behavioural equivalence of the computed model',
    'N02': 'minimality is a relation between the computed partition and the behaviour of an arbitrary system; not a property '
           'of the shape of the code that dataflow can decide',
    'N03': 'completeness of a test suite is a theorem about sets of words computed at run time; a dataflow or syntactic rule '
           'cannot establish it',
    'N04': 'consistency depends on which merges the scores and folds accept on given data; runtime quantity',
    'N05': 'functional correctness of partition refinement and product search over arbitrary graphs; runtime quantity',
    'N06': 'a statistical statement about sampled frequencies',
    'N07': 'a probabilistic bound over the sampling distribution',
    'N08': 'termination depends on runtime measures (states distinguished, samples drawn) no sound static argument in reach '
           'can bound',
    'N09': 'a property of randomly drawn graphs (reachability, distinctness of drawn outputs): rejection loops over runtime values',
}
