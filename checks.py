# What each check builds and runs. quick/thorough: list of (build variant, number of cases, time cap in seconds).
COMMON = ["lv_impl.cpp"]
CHECKS = {
    "C01": dict(src="c01.cpp", parts=3, quick=[("fast", 300000, 60)], thorough=[("fast", 3000000, 300), ("san", 100000, 120)]),
    "C02": dict(src="c02.cpp", parts=3, quick=[("fast", 200000, 60)], thorough=[("fast", 2000000, 300), ("san", 60000, 120)]),
    "C03": dict(src="c03.cpp", parts=3, quick=[("fast", 80000, 60)], thorough=[("fast", 600000, 300), ("san", 20000, 120)]),
    "C04": dict(src="c04.cpp", parts=3, quick=[("fast", 150000, 60)], thorough=[("fast", 2000000, 300), ("san", 60000, 120)]),
    "C05": dict(src="c05.cpp", parts=1, quick=[("fast", 300000, 60)], thorough=[("fast", 2000000, 300), ("san", 60000, 120)]),
    "C06": dict(src="c06.cpp", parts=4, quick=[("fast", 100000, 60)], thorough=[("fast", 400000, 300), ("tbb", 20000, 60), ("san", 8000, 120)], libs=["-ltbb"]),
    "C07": dict(src="c07.cpp", parts=4, quick=[("fast", 100000, 60), ("tbb", 20000, 40)], thorough=[("fast", 1000000, 300), ("tbb", 100000, 120), ("san", 20000, 120)]),
    "C08": dict(src="c08.cpp", parts=3, libs=["-lboost_filesystem", "-lboost_system"], quick=[("fast", 100000, 60), ("tbb", 20000, 40)], thorough=[("fast", 1000000, 300), ("tbb", 100000, 120), ("san", 40000, 120)]),
    "C09": dict(src="c09.cpp", parts=5, libs=["-lboost_filesystem", "-lboost_system"], quick=[("fast", 25000, 60)], thorough=[("fast", 1000000, 300), ("san", 40000, 120)]),
    "C10": dict(src="c10.cpp", parts=1, libs=["-lboost_filesystem", "-lboost_system"], quick=[("fast", 20000, 60), ("san", 4000, 30)], thorough=[("fast", 600000, 300), ("san", 60000, 120)]),
    "C11": dict(src="c11.cpp", parts=3, cflags=["-DUSE_NLOPT"], libs=["-lnlopt"], quick=[("fast", 300000, 40), ("tbb", 30000, 20)], thorough=[("fast", 1500000, 300), ("tbb", 200000, 120), ("san", 60000, 120)]),
    "C12": dict(src="c12.cpp", parts=1, cflags=["-DUSE_NLOPT"], libs=["-lnlopt"], quick=[("fast", 400000, 40), ("tbb", 60000, 20)], thorough=[("fast", 3000000, 300), ("tbb", 400000, 120), ("san", 60000, 120)]),
    "C13": dict(src="c13.cpp", parts=1, cflags=["-DUSE_NLOPT"], libs=["-lnlopt"], quick=[("fast", 600000, 40)], thorough=[("fast", 4000000, 300), ("san", 60000, 120)]),
    "C14": dict(src="c14.cpp", parts=1, extra=["bo_impl.cpp"], libs=["-lboost_filesystem", "-lboost_system", "-lnlopt"], cflags=["-DUSE_NLOPT"], quick=[("fast", 60000, 40)], thorough=[("fast", 1500000, 300), ("san", 60000, 120)]),
    "C15": dict(src="c15.cpp", parts=1, extra=["bo_impl.cpp"], libs=["-lboost_filesystem", "-lboost_system", "-lnlopt"], cflags=["-DUSE_NLOPT"], quick=[("fast", 300000, 40)], thorough=[("fast", 4000000, 300), ("san", 100000, 120)]),
    "C16": dict(src="c16.cpp", parts=1, extra=["bo_impl.cpp"], libs=["-lboost_filesystem", "-lboost_system", "-lnlopt"], cflags=["-DUSE_NLOPT"], quick=[("fast", 300000, 40)], thorough=[("fast", 1500000, 300), ("san", 60000, 120)]),
    "C17": dict(src="c17.cpp", parts=1, extra=["bo_impl.cpp"], libs=["-lboost_filesystem", "-lboost_system", "-lnlopt"], cflags=["-DUSE_NLOPT"], quick=[("fast", 300000, 40)], thorough=[("fast", 4000000, 300), ("san", 60000, 120)]),
    "C18": dict(src="c18.cpp", parts=1, extra=["bo_impl.cpp"], libs=["-lboost_filesystem", "-lboost_system", "-lnlopt"], cflags=["-DUSE_NLOPT"], quick=[("fast", 300000, 40)], thorough=[("fast", 4000000, 300), ("san", 60000, 120)]),
    "C19": dict(src="c19.cpp", parts=1, extra=["bo_impl.cpp"], libs=["-lboost_filesystem", "-lboost_system", "-lnlopt"], cflags=["-DUSE_NLOPT"], quick=[("fast", 300000, 40)], thorough=[("fast", 4000000, 300), ("san", 60000, 120)]),
    "C20": dict(src="c20.cpp", parts=1, extra=["bo_impl.cpp"], libs=["-lboost_filesystem", "-lboost_system", "-lnlopt"], cflags=["-DUSE_NLOPT"], quick=[("fast", 20000, 40)], thorough=[("fast", 400000, 300), ("san", 10000, 120)]),
    "C21": dict(src="c21.cpp", parts=1, quick=[("fast", 60000, 30), ("tbb", 60000, 40)], thorough=[("fast", 800000, 150), ("tbb", 1000000, 300), ("san", 30000, 100)], libs=[]),
    "C22": dict(src="c22.cpp", parts=1, quick=[("fast", 15000, 30), ("noshim", 4000, 20)], thorough=[("fast", 400000, 200), ("noshim", 200000, 200), ("san", 4000, 60)]),
    "C23": dict(src="c23.cpp", parts=1, libs=["-lboost_filesystem", "-lboost_system"], quick=[("fast", 200000, 20)], thorough=[("fast", 3000000, 200), ("san", 100000, 100)]),
    "C24": dict(src="c24.cpp", parts=1, libs=["-lboost_filesystem", "-lboost_system"], quick=[("fast", 150000, 20), ("tbb", 40000, 20)], thorough=[("fast", 3000000, 200), ("tbb", 600000, 150), ("san", 100000, 100)]),
    "C25": dict(src="c25.cpp", parts=1, extra=["@REPO@/src/hv/hypervol.c"], libs=["-lboost_filesystem", "-lboost_system"], quick=[("fast", 150000, 20), ("san", 15000, 15)], thorough=[("fast", 3000000, 250), ("san", 200000, 100)]),
    "C26": dict(src="c26.cpp", parts=1, extra=["@REPO@/src/ehvi/%s.cc" % x for x in ("ehvi_calculations", "ehvi_sliceupdate", "ehvi_hvol", "ehvi_multi", "helper")], libs=["-lboost_filesystem", "-lboost_system"], quick=[("fast", 70000, 25), ("san", 5000, 15)], thorough=[("fast", 2000000, 250), ("san", 150000, 100)]),
    "C27": dict(src="c27.cpp", parts=1, extra=["bo_impl.cpp"], libs=["-lboost_filesystem", "-lboost_system", "-lnlopt"], cflags=["-DUSE_NLOPT"], quick=[("fast", 150000, 30)], thorough=[("fast", 2000000, 300), ("san", 60000, 120)]),
    "C28": dict(src="c28.cpp", parts=1, extra=["bo_impl.cpp"], libs=["-lboost_filesystem", "-lboost_system", "-lnlopt"], cflags=["-DUSE_NLOPT"], quick=[("fast", 60000, 30)], thorough=[("fast", 1500000, 300), ("san", 60000, 120)]),
    "C29": dict(src="c29.cpp", parts=1, cflags=["-DUSE_NLOPT"], libs=["-lnlopt"], quick=[("fast", 60000, 60)], thorough=[("fast", 1500000, 400), ("san", 20000, 120)]),
    "C30": dict(src="c30.cpp", parts=1, extra=["bo_impl.cpp"], libs=["-lboost_filesystem", "-lboost_system", "-lnlopt"], cflags=["-DUSE_NLOPT"], quick=[("fast", 30000, 40)], thorough=[("fast", 800000, 350), ("san", 10000, 120)]),
    "C31": dict(src="c31.cpp", parts=1, extra=["bo_impl.cpp", "@REPO@/src/ehvi/ehvi_calculations.cc", "@REPO@/src/ehvi/helper.cc", "@REPO@/src/ehvi/ehvi_hvol.cc", "@REPO@/src/ehvi/ehvi_sliceupdate.cc"], libs=["-lboost_filesystem", "-lboost_system", "-lnlopt"], cflags=["-DUSE_NLOPT"], quick=[("fast", 150000, 30)], thorough=[("fast", 4000000, 350), ("san", 60000, 120)]),
    "C32": dict(src="c32.cpp", parts=1, extra=["@REPO@/src/hv/hypervol.c"] + ["@REPO@/src/ehvi/%s.cc" % x for x in ("ehvi_calculations", "ehvi_sliceupdate", "ehvi_hvol", "helper")], libs=["-lboost_filesystem", "-lboost_system", "-lnlopt"], cflags=["-DUSE_NLOPT"], quick=[("fast", 20000, 30), ("tsan", 6000, 40)], thorough=[("fast", 400000, 300), ("tsan", 60000, 300), ("san", 10000, 100)]),
    "C33": dict(src="c33.cpp", parts=5, extra=["@REPO@/src/ehvi/%s.cc" % x for x in ("ehvi_calculations", "ehvi_sliceupdate", "ehvi_hvol", "helper")], libs=["-lboost_filesystem", "-lboost_system", "-lnlopt"], cflags=["-DUSE_NLOPT"], quick=[("fast", 20000, 40)], thorough=[("fast", 400000, 300), ("san", 10000, 100)]),
    "C34": dict(src="c34.cpp", parts=2, extra=["@REPO@/src/ehvi/%s.cc" % x for x in ("ehvi_calculations", "ehvi_sliceupdate", "ehvi_hvol", "ehvi_multi", "helper")], quick=[("fast", 20000, 40), ("san", 1000, 15)], thorough=[("fast", 600000, 300), ("san", 30000, 100)]),
    "C35": dict(src="c35.cpp", parts=2, extra=["bo_impl.cpp"], libs=["-lboost_filesystem", "-lboost_system"], quick=[("fast", 20000, 40)], thorough=[("fast", 400000, 300), ("san", 10000, 100)]),
    "C36": dict(src="c36.cpp", parts=2, extra=["bo_impl.cpp"] + ["@REPO@/src/ehvi/%s.cc" % x for x in ("ehvi_calculations", "ehvi_sliceupdate", "ehvi_hvol", "helper")], libs=["-lboost_filesystem", "-lboost_system"], quick=[("fast", 150000, 40)], thorough=[("fast", 3000000, 300), ("san", 30000, 100)]),
}
