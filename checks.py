CHECKS = {
 "C01": {"src": "c01_learn.cc", "lib": True},
 "C02": {"src": "c01_learn.cc", "lib": True},
 "C03": {"src": "c03_oracles.cc", "lib": True},
 "C28": {"src": "c03_oracles.cc", "lib": True},
 "C37": {"src": "c03_oracles.cc", "lib": True},
 "C04": {"src": "c04_runner.cc", "lib": True},
 "C05": {"src": "c04_runner.cc", "lib": True},
 "C10": {"src": "c10_ta.cc", "lib": True},
 "C11": {"src": "c10_ta.cc", "lib": True},
 "C12": {"src": "c10_ta.cc", "lib": True},
 "C13": {"src": "c10_ta.cc", "lib": True},
 "C07": {"src": "c07_zone.cc", "lib": False},
 "C08": {"src": "c07_zone.cc", "lib": False},
 "C09": {"src": "c07_zone.cc", "lib": False},
 "C14": {"src": "c14_guards.cc", "lib": True},
 "C15": {"src": "c14_guards.cc", "lib": True},
 "C17": {"src": "c14_guards.cc", "lib": True},
 "C18": {"src": "c18_words.cc", "lib": True},
 "C19": {"src": "c19_conditions.cc", "lib": True},
 "C20": {"src": "c19_conditions.cc", "lib": True},
 "C21": {"src": "c19_conditions.cc", "lib": True},
 "C22": {"src": "c22_regional.cc", "lib": True},
 "C23": {"src": "c22_regional.cc", "lib": True},
 "C24": {"src": "c22_regional.cc", "lib": True},
 "C06": {"src": "c06_symbolic.cc", "lib": True},

 "C25": {"src": "c25_renaming.cc", "lib": True},
 "C26": {"src": "c25_renaming.cc", "lib": True},
 "C27": {"src": "c25_renaming.cc", "lib": True},
 "C30": {"src": "c31_cex.cc", "lib": True},
 "C31": {"src": "c31_cex.cc", "lib": True},
 "C32": {"src": "c31_cex.cc", "lib": True},
 "C29": {"src": "c29_io.cc", "lib": True},
 "C16": {"src": "c16_neighbors.cc", "lib": True},
 "C35": {"src": "c16_neighbors.cc", "lib": True},
 "C36": {"src": "c16_neighbors.cc", "lib": True},
 "C33": {"src": "c29_io.cc", "lib": True},
 "C34": {"src": "c29_io.cc", "lib": True},
}
