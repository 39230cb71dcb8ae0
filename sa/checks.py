"""Which rules decide which property."""

from __future__ import annotations

from . import rules_core as K
from . import rules_dispatch as D
from . import rules_flow as F
from . import rules_reader as R
from . import rules_state as X
from . import rules_arrays as A
from . import rules_buffers as B
from . import rules_node as N
from . import rules_objects as O
from . import rules_equality as E
from . import rules_errors as V
from . import rules_resource as Q
from . import rules_regexp as G
from . import rules_regions as L
from . import rules_recursion as Z
from . import rules_stream as S
from . import rules_tables as T
from . import rules_writer as W

BASE = [
    "Python's semantics as modelled by sa/interp.py; loops are analysed by one arbitrary iteration with inferred invariants",
    "standard-library functions behave as documented (sa/interp.py, sa/reader.py list the ones modelled)",
    "caller-supplied objects (options, callbacks, custom steps) respect their declared protocols",
]


class Check:
    def __init__(self, rules, explanation, assumptions=(), deep=()):
        self.rules, self.explanation = list(rules), explanation
        self.assumptions = BASE + list(assumptions)
        self.deep = list(deep)


CHECKS = {
    "C01": Check([W.check_numbering, R.check_reader_numbering],
                 "Abstract interpretation of every writer entry point and of the reader of every tag; on each path the "
                 "order of object-id allocations is compared with the order V8 assigns ids in."),
    "C02": Check([W.check_recorded, W.check_reference_step, R.check_reader_references, F.check_log, F.check_merge],
                 "Abstract interpretation; on each path the object registered under an id is compared with the object "
                 "written or returned, and the back-reference step with the tag it emits and the object it hands on."),
    "C03": Check([W.check_layout, W.check_contents, R.check_reader_layout, R.check_error_fields, S.check_primitives],
                 "Every abstract path of every writer and reader is turned into a sequence of wire tokens and matched "
                 "against the grammar V8 defines for its tag, including the value each token carries."),
    "C06": Check([S.check_errors],
                 "Every tag's reader and the stream's primitives are interpreted with the exceptions of modelled "
                 "operations enabled; the class of each exception leaving a path is looked up in the class hierarchy."),
    "C07": Check([S.check_bounds],
                 "Interval facts along every path bound each access to the input and each position update."),
    "C09": Check([W.check_keys, W.check_keys_lifted],
                 "Typestate of the key constraint around every nested write, over all writer paths."),
    "C10": Check([W.check_counts, R.check_reader_counts],
                 "Linear facts of each path relate the count on the wire to the entries actually written or read."),
    "C04": Check([N.check_codes, T.check_codes, T.check_tag_sets, T.check_error_names],
                 "Abstract evaluation of every enum and table from its source, compared row by row with V8's; the error-name "
                 "lookups are interpreted for every name and for an arbitrary other string."),
    "C08": Check([T.check_feature_table, T.check_gating, K.check_encode_options],
                 "The version table and the version comparison are evaluated with a symbolic target version; on every writer "
                 "path each feature-dependent token must be preceded by a test establishing the feature."),
    "C11": Check([S.check_header, K.check_encode_header, K.check_decode_header],
                 "All paths of the header reader, with the version as a symbolic integer, and of the entry points."),
    "C14": Check([K.check_encode_options, K.check_decode_options, K.check_option_use, K.check_collection_types, K.check_host_objects, K.check_registry],
                 "Each option is a symbolic value followed through the abstract entry points and readers."),
    "C05": Check([D.check_encode_dispatch, D.check_decode_dispatch, R.check_reader_refusals],
                 "singledispatch's own algorithm on the class hierarchy declared in the source decides which writer each kind of "
                 "value reaches; that writer's and every tag reader's paths are interpreted.",
                 ["the class hierarchy of the standard library is that of the running interpreter"]),
    "C12": Check([D.check_ints],
                 "The int writer is interpreted with an arbitrary integer; the facts of each path bound the integer at the tag written."),
    "C13": Check([F.check_steps],
                 "The contexts are interpreted with three symbolic steps and different patterns of calls to next; the sequence of "
                 "step calls, their arguments and results are compared with the documented order."),
    "C15": Check([X.check_shared_state, X.check_config_unchanged, X.check_fresh, X.check_steps_kept, X.check_value_untouched],
                 "Effect analysis: writes to module-level, class-level and configuration state; abstract heaps of two calls are "
                 "compared for sharing; writer paths are searched for changes of the value.",
                 ["effects are found through names, aliases and attribute chains rooted at them, not through eval-like indirection"]),
    "C16": Check([O.check_same_value_zero, O.check_keyed],
                 "The key function is interpreted with an arbitrary value and split by kind; every method of maps and sets is interpreted "
                 "with the key function opaque, and each lookup, store and removal must use it."),
    "C17": Check([O.check_property_keys, O.check_object_storage],
                 "Key normalisation is interpreted with an arbitrary key; every method of objects is interpreted with an arbitrary "
                 "normalised key and opaque array storage, and its effects are compared with the property model."),
    "C18": Check([A.check_dense, A.check_sparse, A.check_array_reads, A.check_array_init, A.check_array_eq, L.check_elements_view, L.check_regions],
                 "Each operation of both storages is interpreted on an arbitrary representation satisfying the class invariant; the "
                 "resulting representation and result must be those of the list model, with the invariant restored."),
    "C24": Check([Q.check_reader, Q.check_steps, Q.check_written, Q.check_gaps, Q.check_output],
                 "Abstract interpretation of readers and of container operations; every repetition, copy and allocation on each path is related to "
                 "the input consumed or the entries present."),
    "C23": Check([E.check_data, E.check_containers, E.check_views, E.check_hash],
                 "Pairs of values of each type are made and compared by interpretation with symbolic parts; the outcome on each path is "
                 "compared with what is known of the parts on it."),
    "C22": Check([G.check_flags, G.check_made, G.check_patterns],
                 "The flag conversions are evaluated for sets of flags, and the conversions of patterns interpreted with every way of failing; "
                 "results are compared with JavaScript's and Python's meaning of the flags."),
    "C21": Check([N.check_read, N.check_write, N.check_mapper],
                 "The Node.js handler is interpreted for every view code and type with symbolic stream, length and view; codes, bounds, bytes "
                 "and position are compared with Node.js's format on every path."),
    "C20": Check([Z.check_recursive_eq, Z.check_recursive_repr, Z.check_repr_settings],
                 "The comparison guard, the printer and the settings block are interpreted with an arbitrary set of comparisons or "
                 "printings under way, the guarded operation returning or raising; the record after each path is compared with that before."),
    "C19": Check([B.check_array_buffer, B.check_views, B.check_dataview],
                 "Every way of making a buffer, every view class (over an arbitrary buffer, offset and length) and every DataView accessor "
                 "is interpreted with byte ranges as linear forms; each path's range is compared with JavaScript's.",
                 ["a buffer's bytes are only reached through the buffer protocol"]),
    "C25": Check([V.check_error_parts, V.check_exceptions],
                 "Making, copying and converting errors is interpreted with symbolic parts and exceptions; each path's result is compared "
                 "part by part with what it was made from, and the report's lines with the exceptions and frames they describe.",
                 ["traceback.TracebackException describes exceptions as documented"]),
    "C26": Check([V.check_wrappers],
                 "Making a wrapper object is interpreted for each kind of value and each tag; the facts of each path bound the value at the tag taken."),
    "C27": Check([V.check_reports, V.check_refusals, V.check_node_reports, R.check_reference_reports],
                 "The errors' constructors and the places that report unread tags, unwritten values and malformed input are interpreted; "
                 "what the raised error holds is compared with what was at hand."),
}
