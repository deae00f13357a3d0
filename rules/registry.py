PS = ("path-sensitive typestate/provenance dataflow analysis by abstract interpretation of the syntax trees "
      "(all control-flow paths, exceptions and cancellation at every await included; nothing executed, no solver)")
SEQ = ("symbolic-sequence dataflow analysis: every control-flow path of every queue operation, with its database statements, replayed on "
       "the abstract sequence front ++ stored ++ back and compared with the operation's contract (nothing executed, no solver)")
SHAPE = ("shape analysis: fixpoint of the abstract heaps (nodes, keys and values up to renaming) that the operations leave behind, each compared with the "
         "operation's contract (nothing executed, no solver)")
CXX = ("path-sensitive typestate/provenance dataflow analysis by abstract interpretation of the compiler front end's syntax trees of the C++ sources "
       "(all control-flow paths; nothing executed, no solver)")
REGISTRY = {
    "C01": ("queue", SEQ),
    "C02": ("queue", SEQ),
    "C03": ("queue", SEQ),
    "C04": ("buffered", PS),
    "C05": ("buffered", PS),
    "C06": ("buffered", PS),
    "C07": ("buffered", PS),
    "C08": ("buffered", PS),
    "C09": ("buffered", PS),
    "C10": ("buffered", PS),
    "C11": ("management", PS),
    "C12": ("lifecycle", PS),
    "C13": ("lifecycle", PS),
    "C14": ("servers", PS),
    "C15": ("servers", PS),
    "C16": ("requests", PS),
    "C17": ("clients", PS),
    "C18": ("requests", PS),
    "C19": ("clients", PS),
    "C20": ("clients", PS),
    "C21": ("clients", PS),
    "C22": ("requests", PS),
    "C23": ("requests", PS),
    "C24": ("stats", PS),
    "C25": ("config", PS),
    "C26": ("logs", PS),
    "C27": ("shipper", CXX),
    "C28": ("shipper", CXX),
    "C29": ("prometheus", PS),
    "C30": ("errors", PS),
    "C31": ("cache", SHAPE),
    "C32": ("cli", PS),
    "C33": ("tasks", PS),
    "C34": ("otlp", PS),
    "C35": ("keys", PS),
    "C36": ("stats", PS),
    "C37": ("timing", PS),
    "C38": ("queue", SEQ),
    "C39": ("startup", PS),
    "C40": ("startup", PS),
    "C41": ("prometheus", PS),
}
# per-property level notes where the default does not say it all
NOTES = {}
NOT_APPLICABLE = {
    "C91": "Elapsed wall-clock time is a run-time quantity (event-loop scheduling, load): no static argument bounds it. That each wait is "
           "there and takes the configured value is claimed as C37.",
    "C92": "Whether committed pages survive power loss is settled by sqlite's journal and the file system below it, not by this source. "
           "That every change is committed where it has to be is claimed as C38.",
}
