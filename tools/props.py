"""How each property's harness is built and run."""
import os
REPO = os.environ.get("PBT_REPO", "/repo")  # overridden only while developing

MACIS_INC = ["include", "src/lobpcgxx/include", "src/sparsexx/include", "src/macis", "src"]
MACIS_DEFS = ["SPDLOG_COMPILED_LIB", "SPDLOG_SHARED_LIB", "SPDLOG_FMT_EXTERNAL", "NDEBUG"]
MACIS_LIBS = ["-llapackpp", "-lblaspp", "-llapack", "-lblas", "-lspdlog", "-lfmt", "-lm", "-ldl"]

def macis(srcs=(), np=0, asan=True, opt="-O1", workers=None, repo_srcs=(), omp=1, **kw):
    d = dict(kind="macis", srcs=list(srcs), np=np, asan=asan, opt=opt,
             workers=workers, repo_srcs=list(repo_srcs), omp=omp, mult={}, cap={"quick": 150, "thorough": 600})
    d.update(kw)
    return d

LIB_NO_CASSCF = ["src/macis/*.cxx", "!src/macis/casscf.cxx"]
LIB_ALL = ["src/macis/*.cxx"]

LIB_CAS = ["src/macis/%s.cxx" % x for x in ("casscf", "fock_matrices", "orbital_gradient", "orbital_hessian", "orbital_rotation_utilities", "orbital_steps", "transform")]
# the last integrals the optimiser transformed are its final ones
ATTIC = ("bandlan", "combins", "ed", "eigsolver", "hamil", "rdms", "slaterdet", "utils")
WRAP = ["-Wl,--wrap=_ZN5macis19two_index_transformEmmPKdmS1_mPdm", "-Wl,--wrap=_ZN5macis20four_index_transformEmmPKdmS1_mPdm"]

LIB_DRV = LIB_CAS + ["src/macis/%s.cxx" % x for x in ("fcidump", "moller_plesset", "orbital_energies")] + ["tests/ini_input.cxx"]
NOMPI = dict(macis_on=[], sparsexx_on=[], cxx="g++")
PROPS = {
    "C01": macis(["c01.cxx"], mult={"quick": 4}),
    "C02": macis(["c02.cxx"], mult={"quick": 3}),
    "C03": macis(["c03.cxx"], mult={"quick": 5}),
    "C04": macis(["c04.cxx"], mult={"quick": 6}),
    "C05": macis(["c05.cxx"], mult={"quick": 8}),
    "C06": [macis(["c06.cxx"], mult={"quick": 4}), macis(["c06.cxx"], np=4, mult={"quick": 8})],
    "C07": macis(["c07.cxx"], mult={"quick": 6}),
    "C08": macis(["c08.cxx"], mult={"quick": 5}),
    "C09": macis(["c09.cxx"], np=1),
    "C10": [macis(["c10.cxx"], mult={"quick": 5}), macis(["c10.cxx"], np=4, mult={"quick": 6})],
    "C11": macis(["c11.cxx"], np=4),
    "C12": [macis(["c12.cxx"], np=1, defs=["SERIAL"], repo_srcs=["src/macis/transform.cxx"]), macis(["c12.cxx"], np=4, repo_srcs=["src/macis/transform.cxx"])],
    "C13": [macis(["c13.cxx"], np=1, defs=["SERIAL"], mult={"quick": 5}), macis(["c13.cxx"], np=4, mult={"quick": 5})],
    "C14": macis(["c14.cxx"], np=4, mult={"quick": 4}),
    "C15": macis(["c15.cxx"], opt="-O2", repo_srcs=["src/macis/fcidump.cxx"]),
    "C16": macis(["c16.cxx"], repo_srcs=["src/macis/fcidump.cxx"]),
    "C17": macis(["c17.cxx"], mult={"quick": 8}, repo_srcs=["src/macis/transform.cxx"]),
    "C18": macis(["c18.cxx"], mult={"quick": 8}, repo_srcs=["src/macis/fock_matrices.cxx"]),
    "C19": macis(["c19.cxx"], mult={"quick": 4}, repo_srcs=["src/macis/orbital_gradient.cxx", "src/macis/orbital_hessian.cxx", "src/macis/orbital_rotation_utilities.cxx", "src/macis/orbital_steps.cxx", "src/macis/fock_matrices.cxx", "src/macis/transform.cxx"]),
    "C20": [macis(["c20.cxx"], np=1, defs=["SERIAL"], mult={"quick": 3}, repo_srcs=LIB_CAS, link=WRAP), macis(["c20.cxx"], np=4, mult={"quick": 3}, repo_srcs=LIB_CAS, link=WRAP)],
    "C21": macis(["c21.cxx"], mult={"quick": 20}, repo_srcs=["src/macis/moller_plesset.cxx", "src/macis/orbital_energies.cxx"]),
    "C22": macis(["c22.cxx"], mult={"quick": 4}),
    "C23": macis(["c23.cxx"], mult={"quick": 8}),
    "C24": macis(["c24.cxx"], mult={"quick": 4}),
    "C25": [macis(["c25.cxx"], defs=["SERIAL"], mult={"quick": 3}), macis(["c25.cxx"], np=4, mult={"quick": 2}),
            macis(["c25s.cxx"], mult={"quick": 1}, defs=["SPARSEXX_ENABLE_CEREAL=1"])],
    "C26": [macis(["c26.cxx"], mult={"quick": 4}),
            macis(["c26m.cxx"], mult={"quick": 2}, sparsexx_on=["SPARSEXX_ENABLE_MPI", "SPARSEXX_ENABLE_METIS"], repo_srcs=["src/sparsexx/src/metis_wrapper.cxx"])],
    "C27": [macis(["c27.cxx"], defs=["SERIAL"], mult={"quick": 4}), macis(["c27.cxx"], np=4, mult={"quick": 4})],
    "C28": macis(["c28.cxx"], mult={"quick": 3}),
    "C29": macis(["c29.cxx"], np=0, kind="attic", std="c++20", mult={"quick": 15},
                 repo_srcs=["attic/src/cmz_ed/%s.c++" % x for x in ATTIC]),
    "C30": macis(["c30.cxx"], np=0, kind="attic", std="c++20", mult={"quick": 1},
                 repo_srcs=["attic/src/cmz_ed/%s.c++" % x for x in ATTIC] + ["attic/src/dbwy/gf.c++"]),
    "C31": macis(["c31.cxx"], np=0, kind="attic", std="c++20", mult={"quick": 1},
                 repo_srcs=["attic/src/cmz_ed/%s.c++" % x for x in ATTIC] + ["attic/src/dbwy/gf.c++"]),
    "C32": [macis(["c32.cxx", "c32_driver.cxx"], np=1, defs=["SERIAL"], repo_srcs=LIB_DRV, link=WRAP), macis(["c32.cxx", "c32_driver.cxx"], np=4, repo_srcs=LIB_DRV, link=WRAP)],
    "C33": [macis(["c33.cxx"], defs=["SERIAL"], repo_srcs=["src/macis/fcidump.cxx"]), macis(["c33.cxx"], np=4, repo_srcs=["src/macis/fcidump.cxx"])],
    # the same tests, the library built without MPI
    "C34": [macis(["c09.cxx"], defs=["NOMPI"], **NOMPI, mult={"quick": 0.3, "thorough": 0.3}),
            macis(["c12.cxx"], defs=["SERIAL", "NOMPI"], **NOMPI, repo_srcs=["src/macis/transform.cxx"]),
            macis(["c13.cxx"], defs=["SERIAL", "NOMPI"], **NOMPI),
            macis(["c20.cxx"], defs=["SERIAL", "NOMPI"], **NOMPI, repo_srcs=LIB_CAS, link=WRAP)],
}
TECH = {}
