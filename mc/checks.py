# the harnesses of each property
check("C01", unit("c01.cpp"))
check("C02", unit("c02.cpp"))
check("C03", unit("c03.cpp"))
check("C04", unit("c04.cpp"))
check("C05", unit("c05.cpp"))
check("C06", unit("c06.cpp"))
check("C07", unit("c07.cpp"))
check("C08", unit("c08.cpp"))
check("C09", wm_unit("c09.cpp"))
check("C10", unit("c10.cpp"), wm_unit("c09.cpp"))
check("C11", unit("c11.cpp"))
check("C12", *[unit("c12.cpp", name="c12_%d" % k, flags=["-DPART=%d" % k]) for k in (1, 2, 3)])
check("C13", *[unit("c13.cpp", name="c13_%d" % k, flags=["-DPART=%d" % k]) for k in (1, 2, 3, 4)])

SIMD = [  # name, compiler flags, required of the CPU
    ("none", [], []), ("sse2", ["-msse2", "-DXME_SIMD_ENABLE_SSE2"], ["sse2"]), ("sse3", ["-msse3", "-DXME_SIMD_ENABLE_SSE3"], ["pni"]),
    ("ssse3", ["-mssse3", "-DXME_SIMD_ENABLE_SSSE3"], ["ssse3"]), ("sse41", ["-msse4.1", "-DXME_SIMD_ENABLE_SSE41"], ["sse4_1"]),
    ("sse42", ["-msse4.2", "-DXME_SIMD_ENABLE_SSE42"], ["sse4_2"]), ("avx", ["-mavx", "-DXME_SIMD_ENABLE_AVX"], ["avx"]),
    ("avx2", ["-mavx2", "-DXME_SIMD_ENABLE_AVX2"], ["avx2"]), ("avx512f", ["-mavx512f", "-DXME_SIMD_ENABLE_AVX512F"], ["avx512f"])]
def simd_units(src, part, san, rel):
    out = []
    for n, f, cpu in SIMD:
        v = [k for k, names in (("san", san), ("rel", rel)) if n in names]
        us = unit(src, variants=v, name="%s_%s_%d" % (src.split(".")[0], n, part), flags=f + ["-DPART=%d" % part], libs=["-ltbb"])
        for u in us:
            u["cpu"] = cpu
        out += us
    return out
ALL = [x[0] for x in SIMD]
check("C14", simd_units("c14.cpp", 1, ["none", "sse2", "sse41", "avx2", "avx512f"], ALL), simd_units("c14.cpp", 2, ["none", "sse2", "avx2"], ["ssse3", "sse41", "avx512f"]),
      rule="a case is one call of find, identified by configuration, type, length, offset, first-match position, decoys and range kind; trivial are empty ranges")
check("C15", simd_units("c15.cpp", 1, ["none", "sse2", "ssse3", "sse42", "avx2", "avx512f"], ALL),
      rule="a case is one call of reverse, identified by configuration, type, length, offset, form of call and range kind; trivial are ranges of fewer than two elements")
check("C16", *[unit("c16.cpp", name="c16_%d" % k, flags=["-DPART=%d" % k]) for k in range(1, 8)])
check("C17", unit("c17.cpp"))
check("C18", unit("c18.cpp", name="c18_1", flags=["-DPART=1"]),
      *[unit("c18.cpp", variants=["san", "rel"] if k < 2 else ["rel"], name="c18_2_%d" % k, flags=["-DPART=2", "-DNB=%d" % k]) for k in (3, 2, 1, 0)])
check("C19", unit("c19.cpp"))
check("C20", *[unit("c20.cpp", name="c20_%d" % k, flags=["-DPART=%d" % k]) for k in range(1, 9)],
      rule="a case is one operation on one combination of component values (or one distinct history state), identified by size, element types, operation and values; trivial are vectors of one component")
check("C21", *[unit("c21.cpp", name="c21_%d" % k, flags=["-DPART=%d" % k]) for k in (1, 2, 3, 4, 5, 11, 12, 13, 14, 15)],
      rule="a case is one operation on one combination of matrices, identified by shape, element type, operation and entries")
check("C22", unit("c22.cpp", name="c22_rh"), unit("c22.cpp", name="c22_lh", flags=["-DXME_MATH_CLIP_LH"]),
      rule="a case is one point mapped by one transformation or projection, identified by configuration, type, parameters, base matrix and point")
check("C23", unit("c23.cpp"), rule="a case is one operation on one combination of component values, identified by types, operation and values")
check("C24", unit("c24.cpp"))
check("C25", unit("c25.cpp"))
check("C26", *[unit("c26.cpp", name="c26_%d" % k, flags=["-DPART=%d" % k]) for k in range(6, 0, -1)], rule="a case is one AlignedData object at one placement (or one construction from arguments), identified by size, natural alignment, alignment asked for and placement")
check("C27", unit("c27.cpp", libs=["-lquadmath"]), rule="a case is one function of one argument or one constant in one type, identified by build, function, type and argument; trivial is the sign of zero")
check("C28", unit("c28.cpp", variants=["rel"], flags=['-DXME_INC="%s/include"' % REPO]),
      rule="a case is one compilation, identified by compiler, language level, target and subset of switches (or one pair of sets); trivial is the default target with no switch")
check("C29", unit("c29.cpp"), unit("c29.cpp", variants=["rel"], name="c29_gnu", flags=["-std=gnu++20"]), unit("c29.cpp", variants=["rel"], name="c29_23", flags=["-std=c++23"]),
      rule="a case is one trait or function of one type and value, identified by build, trait, type and value; trivial is zero")
check("C30", unit("c30.cpp"))
check("C31", *[unit("c31.cpp", name="c31_%d" % k, flags=["-DPART=%d" % k]) for k in range(5)])
check("C32", unit("c32.cpp", variants=["rel"], flags=['-DXME_INC="%s/include"' % REPO]),
      rule="a case is one compilation of one program, identified by compiler, language level, switches and the headers in order")
check("C33", unit("c33.cpp", variants=["rel"], flags=['-DXME_INC="%s/include"' % REPO]),
      rule="a case is one compilation of one probe, identified by compiler, target, language level, library and macros predefined")
check("C34", unit("c34.cpp", variants=["rel"], flags=['-DXME_INC="%s/include"' % REPO]),
      rule="a case is one program, identified by compiler, language level, the modules imported and how headers are mixed in")
check("C35", *[unit("c35.cpp", name="c35_%d" % k, flags=["-DPART=%d" % k]) for k in range(5)])
check("C36", *[unit("c36.cpp", name="c36_%d" % k, flags=["-DPART=%d" % k]) for k in (1, 2)],
      rule="a case is one operation with one of its fault points failing (or one noexcept expression of one combination of types), identified by operation, shape and fault point")
check("C37", unit("c37.cpp", variants=["rel"], flags=['-DXME_INC="%s/include"' % REPO, '-DXME_MC_DIR="%s"' % MC]),
      rule="a case is one program, identified by compiler, language level and switches, and the constant it evaluates; an execution is one history, position or combination evaluated in it")
check("C38", *[unit("c38.cpp", name="c38_%d" % k, flags=["-DPART=%d" % k], libs=["-ltbb"]) for k in range(7)],
      rule="a case is one algorithm or a group of adaptors over one range, identified by the kind of range, its contents and the algorithm")
check("C39", simd_units("c39.cpp", 1, [], ["none", "ssse3", "avx2", "avx512f"]), unit("c39.cpp", variants=["rel"], name="c39_O0", flags=["-O0", "-UNDEBUG"], libs=["-ltbb"]),
      rule="a case is one operation on one object in one state and relation to another object, run with every other memory guarded")
for u in CHECKS["C39"]["units"]:
    u["libs"].append("-Wl,-z,now")
