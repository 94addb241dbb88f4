"""property id -> (module, function)"""
CHECKS = {
    "C01": ("stream", "framing"),
    "C02": ("stream", "classification"),
    "C03": ("stream", "waits"),
    "C04": ("stream", "truncation"),
    "C05": ("stream", "header"),
    "C06": ("stream", "signature"),
    "C07": ("stream", "endianness"),
}
CHECKS.update({
    "C08": ("ym", "operator_fields"),
    "C09": ("ym", "channel_fields"),
    "C10": ("ym", "isolation"),
})
CHECKS.update({
    "C11": ("events", "sample_clock"),
    "C12": ("events", "key_events"),
})
CHECKS.update({
    "C13": ("events", "instruments"),
})
CHECKS.update({
    "C14": ("events", "snapshots"),
})
CHECKS.update({
    "C17": ("export", "note_names"),
    "C18": ("export", "placement"),
    "C19": ("export", "cell_content"),
    "C20": ("export", "tempo"),
    "C21": ("export", "structure"),
})
CHECKS.update({
    "C15": ("whole", "value_semantics"),
    "C16": ("whole", "instrument_file"),
    "C22": ("whole", "file_instruments"),
    "C24": ("whole", "estimate"),
    "C25": ("whole", "command_sequence"),
    "C26": ("front", "files"),
    "C27": ("front", "wiring"),
    "C28": ("whole", "refusal"),
    "C29": ("whole", "independence"),
})
CHECKS["C23"] = ("listing", "listing")
CHECKS["C32"] = ("whole", "attributes")
