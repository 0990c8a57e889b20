"""property id -> (module, function, note)"""
P = {
    "C01": ("codec", "c01"),
    "C02": ("codec", "c02"),
    "C03": ("codec", "c03"),
    "C04": ("codec", "c04"),
    "C05": ("codec", "c05"),
    "C06": ("calls", "c06"),
    "C07": ("log", "check_tiles"),
    "C08": ("log", "check_left"),
    "C09": ("log", "check_flags"),
    "C10": ("log", "check_deal"),
    "C11": ("log", "check_isolation"),
    "C12": ("log", "check_tokens"),
    "C13": ("log", "check_prefix"),
    "C14": ("log", "check_turns"),
    "C15": ("offers", "check_offers"),
    "C16": ("offers", "check_executed"),
    "C17": ("offers", "check_supported"),
    "C18": ("offers", "check_eval"),
    "C19": ("offers", "check_frozen"),
    "C20": ("log", "check_melds"),
    "C21": ("wins", "check_wins"),
    "C22": ("agents", "check_samples"),
    "C23": ("agents", "check_tokens"),
    "C24": ("agents", "check_state"),
    "C25": ("agents", "check_masks"),
    "C26": ("agents", "check_network"),
    "C27": ("agents", "check_embedding"),
    "C28": ("train", "check_loader"),
    "C29": ("train", "check_passes"),
    "C30": ("train", "check_optimiser"),
    "C31": ("train", "check_validation"),
    "C32": ("train", "check_checkpoints"),
    "C33": ("train", "check_registry"),
    "C35": ("pure", "check"),
    "C36": ("scrape", "check"),
}


def lookup(pid):
    m, f = P[pid]
    return m, f, None
