# the deciding technique of each property, for tools/mkmanifest.py: (technique, what bounds it)
S = "Randomised search: no proof. Bounds of the generator and case counts are in DESIGN.md and the evidence file."
def t(x, n=""):
    return ("property-based testing: " + x, (n + " " if n else "") + S)
TECH = {
    "C01": t("generated data, models and queries against a dense posterior in long double; metamorphic relations", "Mostly at most 25 samples, 6 inputs and 4 outputs; now and then up to 110, 12 and 8."),
    "C02": t("stateful generation of operation histories against a model rebuilt from scratch and a dense reference", "Mostly at most 14 operations, now and then 40."),
    "C03": t("generated data against the long-double log density, actual leave-one-out, and differences of them"),
    "C04": t("generated points and parameters against closed forms in long double and differences of them"),
    "C05": t("generated means, data and parameters against closed forms in long double and differences of them"),
    "C06": t("generated data and optimisers; objective before and after, unchanged parts, rebuilt model"),
    "C07": t("stateful generation of histories against independent single-output references; sequential and TBB"),
    "C08": t("generated data against an independent selection and a dense model of the kept samples; sequential and TBB"),
    "C09": t("round trips over generated models, histories and archives"),
    "C10": t("stateful round trips over generated objects, names, directories and sizes; sanitizers"),
    "C11": t("generated objectives that record every query; invariant over the queries"),
    "C12": t("generated objectives that record every query; the promised relation between queries and result"),
    "C13": t("step-by-step differential against an independent implementation of the published update rules"),
    "C14": t("generated dimensions, sizes and configurations against an enumeration of the design"),
    "C15": t("generated predictions and models against closed forms in long double"),
    "C16": t("stateful generation of runs with recording components against a reference loop"),
    "C17": t("stateful generation of runs with recording components; model rebuilt from the history"),
    "C18": t("fault injection at generated evaluations, with continuation, against the reference history"),
    "C19": t("generated runs and criteria against the documented decisions"),
    "C20": t("generated runs; every file parsed and compared with the recorded run"),
    "C21": t("generated work, ranges and thread counts against a sequential loop; sequential and TBB"),
    "C22": t("generated seeds, ranges and threads; reproducibility, range, distinctness and distribution tests"),
    "C23": t("generated values and histories of assignments against a map and the definitions"),
    "C24": t("generated point sets against the definition over all pairs; metamorphic relations; sequential and TBB"),
    "C25": t("generated point sets against an independent volume; metamorphic relations; sanitizers"),
    "C26": t("generated fronts and predictions against the integral of the improvement in long double; all schemes against each other"),
    "C27": t("stateful generation of constrained runs against a reference; closed form of the acquisition function"),
    "C28": t("stateful generation of updates; the scalarisation is solved for its weights and checked on all data"),
    "C29": t("generated data and pseudo-inputs against dense FITC algebra in long double"),
    "C30": t("generated runs against an independent implementation of the search, ties enumerated, and cell invariants"),
    "C31": t("generated runs with recording components against models and expected improvements rebuilt from the history"),
    "C32": t("generated shared and independent work, in several threads against one thread; ThreadSanitizer over the same cases", "Races are found if the schedules that ran have no ordering between the accesses."),
    "C33": t("differential: generated runs with components left out or reordered against runs that name all of them, same random numbers", "The sets and orders of components are a list of about 35 instantiations."),
    "C34": t("generated test cases through the program, against the integral of the improvement in long double; the simulation against its exact mean and variance, with generated rare draws", "At most 6 points and 4 predictions."),
    "C35": t("generated runs and populations with a recording stand-in for NSGA-II, against models rebuilt from the history", "sferes2 itself is not run: it is not installed."),
    "C36": t("generated functions, settings and candidates with a recording stand-in for libcmaes; differential runs for the defaults", "libcmaes itself is not run: it is not installed."),
}
