"""What each check runs: suites of random runs (name, quick, thorough) and models."""
SUITES = {
    "C01": [("reg", 1200, 8000), ("many", 60, 1000)],
    "C02": [("reg", 1200, 8000), ("touch", 300, 2000), ("many", 40, 1000)],
    "C03": [("reg", 1200, 8000), ("mass", 300, 2000), ("touch", 300, 2000), ("sleep", 100, 1000)],
    "C04": [("reg", 1000, 6000), ("mass", 600, 4000), ("many", 40, 1000)],
    "C05": [("mass", 800, 6000), ("reg", 300, 2000), ("free", 300, 2000), ("sleep", 250, 3000), ("big", 60, 1500)],
    "C06": [("mass", 1000, 6000), ("reg", 500, 4000)],
    "C07": [("free", 1200, 8000), ("multi", 300, 2000), ("touch", 300, 3000)],
    "C08": [("contact", 1200, 10000), ("neat", 400, 4000), ("multi", 500, 4000), ("limit", 300, 2000), ("big", 100, 1500)],
    "C09": [("contact", 1200, 8000), ("neat", 300, 4000), ("multi", 600, 4000), ("big", 60, 1500)],
    "C10": [("contact", 1200, 8000), ("neat", 300, 4000), ("multi", 500, 4000), ("solid", 80, 1000)],
    "C11": [("sleep", 500, 6000), ("touch", 300, 2000), ("star", 60, 1000)],
    "C12": [("sleep", 400, 4000), ("touch", 700, 6000), ("star", 150, 1500)],
    "C13": [("solid", 300, 4000), ("contact", 300, 2000), ("neat", 200, 2000), ("sleep", 150, 2000), ("big", 40, 1500)],
    "C14": [("mesh", 1200, 8000), ("contact", 600, 4000), ("big", 80, 1500)],
    "C15": [("twin", 2500, 10000), ("contact", 600, 4000)],
    "C16": [("deg", 1200, 8000), ("reg", 400, 3000), ("contact", 400, 3000), ("solid", 80, 1000), ("big", 60, 1500)],
    "C17": [("limit", 1000, 8000), ("multi", 500, 4000), ("free", 300, 2000), ("big", 80, 1500)],
    "C18": [("free", 1000, 6000), ("reg", 800, 6000), ("big", 80, 1500)],
    "C19": [("ori", 1500, 8000), ("free", 300, 2000)],
}
MODELS = {
    "C01": ["registry"], "C02": ["registry"], "C03": ["registry"], "C04": ["registry"], "C05": ["registry"], "C06": ["registry"],
    "C08": ["lane", "bounce"], "C09": ["lane"], "C10": ["bounce"], "C11": ["sleeping", "stack", "apart"], "C12": ["sleeping", "stack", "side", "tower"],
    "C13": ["stack", "side", "bounce"], "C17": ["lane"],
}
