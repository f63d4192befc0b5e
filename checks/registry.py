"""property id -> (module, function), and what MANIFEST.json says about its check"""
CHECKS = {
    "C01": ("pure", "c01"),
    "C02": ("pure", "c02"),
    "C03": ("delta", "c03"),
    "C04": ("delta", "c04"),
    "C05": ("delta", "c05"),
    "C06": ("delta", "c06"),
    "C07": ("delta", "c07"),
    "C08": ("delta", "c08"),
    "C09": ("index", "c09"),
    "C10": ("index", "c10"),
    "C11": ("recdb", "c11"),
    "C12": ("recdb", "c12"),
    "C13": ("recdb", "c13"),
    "C14": ("recdb", "c14"),
    "C15": ("namespace", "c15"),
    "C16": ("namespace", "c16"),
    "C17": ("engine", "c17"),
    "C18": ("namespaces", "c18"),
    "C19": ("namespaces", "c19"),
    "C20": ("namespaces", "c20"),
    "C21": ("pure", "c21"),
    "C22": ("pure", "c22"),
    "C23": ("pure", "c23"),
    "C24": ("server", "c24"),
}

_T = "TLA+ specification checked with TLC; behaviours of it replayed into the real code and the recorded traces validated by TLC"
_B = ("Exhaustive within the stated bounds on the specification; the real code is bound to it by the "
      "replayed behaviours and validated traces of each run, so a deviation needs to show on one of "
      "them. Trusts TLC, the Go toolchain and the drivers, which hold no oracle. ")
NOTES = {
    "C01": (_T, _B + "Profile.tla/ProfileImpl.tla; all histories of bounded length, long random ones, ids over the whole range."),
    "C02": (_T, _B + "Profile.tla defines the similarity as a fraction of integers; all pairs of profiles over few items and factors k/1000."),
    "C03": (_T, _B + "Delta.tla; histories with real files and in-memory files, volumes beyond every buffer."),
    "C04": (_T, _B + "Delta.tla; counters and file sizes after every step."),
    "C05": (_T, _B + "DeltaImpl.tla (every write a step, crash anywhere, refinement of Delta checked) and every crash image of the real code's writes, torn at byte level, two crashes deep. Writes of one process reach the file in order; assumes no accidental match of the one-byte record checksum."),
    "C06": (_T, _B + "DeltaFile.tla computes the recovered bytes of any file; exhaustive over a small alphabet on the specification, damaged files on the code."),
    "C07": (_T, _B + "Delta.tla for the mark during histories, DeltaFile.tla for opening arbitrary files."),
    "C08": (_T, _B + "Delta.tla with failing operations; every seek and write of a flush or close failed, with partial writes, once and repeatedly."),
    "C09": (_T, _B + "Index.tla; histories with many sessions, volumes beyond every buffer."),
    "C10": (_T, _B + "IndexImpl.tla (every write a step, death or failure anywhere, refinement of Index checked), every crash image of the real code's writes, every call of an open or close failed, arbitrary files opened."),
    "C11": (_T, _B + "RecDb.tla; random walks with rewinds and rewrites over databases from empty to hundreds of entries, entries far beyond the read buffer, refused files."),
    "C12": (_T, _B + "RecDb.tla; the whole file is compared entry by entry after every rewrite."),
    "C13": (_T, _B + "RecDbFile.tla; created bytes, existing files, a grid of profile sizes."),
    "C14": (_T, _B + "RecDbFile.tla reads any file; every truncation and damaged size field of small databases, random ones of larger ones; memory measured."),
    "C15": (_T, _B + "NamespaceImpl.tla (every channel operation a step; refinement of Namespace, nothing left hanging, liveness), scripts of bursts, stops, cancellations, failures and held storages on the real namespace in virtual time, partly under the race detector."),
    "C16": (_T, _B + "As C15; starts failing at each of six stages, stops of idle, busy and overfull namespaces."),
    "C17": (_T, _B + "Engine.tla; two namespaces over one real directory, restarted from what it held at any write (torn ones included), while starting and stopping too, up to two crashes deep."),
    "C18": (_T, _B + "RegistryImpl.tla (every step of a change, failures, deaths; refinement of Registry); TLC searches a sequential order for each recorded concurrent history of the service and of HTTP requests, partly under the race detector. Schedules are the runtime's own."),
    "C19": (_T, _B + "RegistryImpl.tla as for C18; histories with saves failing in five ways, deaths at every kind of system call and in the middle of writes at every size, restarts."),
    "C20": (_T, _B + "Api.tla decides acceptance, status and content; every combination of classes of fields, histories of requests. Limits from 2^64, factors that round to the bounds and text after the JSON object are left open."),
    "C21": (_T, _B + "Names.tla; all strings up to a length over an adversarial alphabet, every single character at every position."),
    "C22": (_T, _B + "MemFile.tla against a second model of a file; histories over growing sizes."),
    "C23": (_T, _B + "SortedArray.tla; all small arrays and arguments, ids over the whole range, other numeric types."),
    "C24": (_T, _B + "Server.tla; the real process with free, occupied and invalid addresses, signals with requests in progress, kills during requests, restarts. Loopback network only."),
}
