ASSUME = [
 "threads are simulated: the real boost code runs on fibers of one OS thread, scheduled at every pthread call and instrumented atomic operation; weak-memory reorderings are covered only through the happens-before race detector",
 "pthread primitives, clocks and thread creation are the emulation in rt/sim.cpp (mutex hand-over is unfair and arbitrary, signals wake an arbitrary waiter, spurious wakeups and early time advance are generated)",
 "clang -O1, Boost 1.83 headers, x86-64 Linux; Windows code paths are not executed",
]
CHECKS = {
 "M01": {"builds": [
   {"name": "m01", "src": "m01.cpp", "quick": 1500000, "about": "default configuration"},
   {"name": "m01_noint", "src": "m01.cpp", "lib": "noint", "flags": ["-DBOOST_THREAD_DONT_PROVIDE_INTERRUPTIONS"], "quick": 500000, "about": "library built without interruptions"},
 ]},
 "C01": {"builds": [
   {"name": "c01", "src": "c01.cpp", "quick": 800000, "about": "default configuration"},
   {"name": "c01_noint", "src": "c01.cpp", "lib": "noint", "flags": ["-DBOOST_THREAD_DONT_PROVIDE_INTERRUPTIONS"], "quick": 300000, "about": "library built without interruptions"},
 ]},
 "C02": {"builds": [
   {"name": "c02", "src": "c02.cpp", "flags": ["-DBOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS"], "quick": 300000, "about": "default configuration"},
   {"name": "c02_v2", "src": "c02.cpp", "flags": ["-DBOOST_THREAD_V2_SHARED_MUTEX", "-DBOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS"], "quick": 200000, "about": "v2 upgrade_mutex"},
   {"name": "c02_v4", "src": "c02.cpp", "lib": "v4", "flags": ["-DBOOST_THREAD_VERSION=4", "-DBOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS"], "quick": 100000, "about": "BOOST_THREAD_VERSION 4"},
 ]},
 "I01": {"builds": [
   {"name": "i01", "src": "i01.cpp", "quick": 500000, "about": "default configuration"},
   {"name": "i01_v4", "src": "i01.cpp", "lib": "v4", "flags": ["-DBOOST_THREAD_VERSION=4"], "quick": 200000, "about": "BOOST_THREAD_VERSION 4"},
 ]},
 "H01": {"builds": [
   {"name": "h01", "src": "h01.cpp", "quick": 1000000, "about": "default configuration"},
   {"name": "h01_v4", "src": "h01.cpp", "lib": "v4", "flags": ["-DBOOST_THREAD_VERSION=4"], "quick": 500000, "about": "BOOST_THREAD_VERSION 4 (terminate if joinable)"},
   {"name": "h01_noint", "src": "h01.cpp", "lib": "noint", "flags": ["-DBOOST_THREAD_DONT_PROVIDE_INTERRUPTIONS"], "quick": 300000, "about": "library built without interruptions"},
 ]},
 "H02": {"builds": [
   {"name": "h02", "src": "h02.cpp", "quick": 2000000, "about": "default configuration"},
   {"name": "h02_noint", "src": "h02.cpp", "lib": "noint", "flags": ["-DBOOST_THREAD_DONT_PROVIDE_INTERRUPTIONS"], "quick": 600000, "about": "library built without interruptions"},
 ]},
 "F01": {"builds": [
   {"name": "f01", "src": "f01.cpp", "quick": 400000, "about": "default configuration (lazy promises)"},
   {"name": "f01_v4", "src": "f01.cpp", "lib": "v4", "flags": ["-DBOOST_THREAD_VERSION=4"], "quick": 300000, "about": "BOOST_THREAD_VERSION 4 (future invalid after get, continuations)"},
   {"name": "f01_noint", "src": "f01.cpp", "lib": "noint", "flags": ["-DBOOST_THREAD_DONT_PROVIDE_INTERRUPTIONS"], "quick": 100000, "about": "library built without interruptions"},
 ]},
 "F02": {"builds": [
   {"name": "f02", "src": "f02.cpp", "quick": 900000, "about": "default configuration (packaged_task<R>, async without arguments)"},
   {"name": "f02_v4", "src": "f02.cpp", "lib": "v4", "flags": ["-DBOOST_THREAD_VERSION=4"], "quick": 900000, "about": "BOOST_THREAD_VERSION 4 (signature packaged_task, variadic async, deferred)"},
   {"name": "f02_v5", "src": "f02.cpp", "lib": "v5", "flags": ["-DBOOST_THREAD_VERSION=5"], "quick": 600000, "about": "BOOST_THREAD_VERSION 5 (async on executors, futures do not wait)"},
 ]},
 "F03": {"builds": [
   {"name": "f03_v4", "src": "f03.cpp", "lib": "v4", "flags": ["-DBOOST_THREAD_VERSION=4"], "quick": 450000, "about": "BOOST_THREAD_VERSION 4 (async futures wait in their destructor)"},
   {"name": "f03_v5", "src": "f03.cpp", "lib": "v5", "flags": ["-DBOOST_THREAD_VERSION=5"], "quick": 450000, "about": "BOOST_THREAD_VERSION 5 (executors)"},
 ]},
 "F04": {"builds": [
   {"name": "f04", "src": "f04.cpp", "quick": 400000, "about": "default configuration (wait_for_any, wait_for_all)"},
   {"name": "f04_v4", "src": "f04.cpp", "lib": "v4", "flags": ["-DBOOST_THREAD_VERSION=4"], "quick": 400000, "about": "BOOST_THREAD_VERSION 4 (when_all, when_any, deferred inputs)"},
   {"name": "f04_v5", "src": "f04.cpp", "lib": "v5", "flags": ["-DBOOST_THREAD_VERSION=5"], "quick": 200000, "about": "BOOST_THREAD_VERSION 5 (futures do not wait in their destructor)"},
 ]},
 "S01": {"builds": [
   {"name": "s01", "src": "s01.cpp", "flags": ["-DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED"], "quick": 1200000, "about": "preconditions throw (so that externally_locked reports a wrong lock)"},
 ]},
 "E01": {"builds": [
   {"name": "e01_v4", "src": "e01.cpp", "lib": "v4", "flags": ["-DBOOST_THREAD_VERSION=4", "-DBOOST_THREAD_PROVIDES_EXECUTORS"], "quick": 250000, "about": "BOOST_THREAD_VERSION 4 with executors"},
   {"name": "e01_v5", "src": "e01.cpp", "lib": "v5", "flags": ["-DBOOST_THREAD_VERSION=5"], "quick": 150000, "about": "BOOST_THREAD_VERSION 5"},
 ]},
 "E02": {"builds": [
   {"name": "e02_v4", "src": "e02.cpp", "lib": "v4", "flags": ["-DBOOST_THREAD_VERSION=4", "-DBOOST_THREAD_PROVIDES_EXECUTORS"], "quick": 200000, "about": "BOOST_THREAD_VERSION 4 with executors"},
   {"name": "e02_v5", "src": "e02.cpp", "lib": "v5", "flags": ["-DBOOST_THREAD_VERSION=5"], "quick": 100000, "about": "BOOST_THREAD_VERSION 5"},
 ]},
 "X01": {"builds": [
   {"name": "x01", "src": "x01.cpp", "quick": 300000, "about": "default configuration"},
   {"name": "x01_v4", "src": "x01.cpp", "lib": "v4", "flags": ["-DBOOST_THREAD_VERSION=4", "-DBOOST_THREAD_PROVIDES_EXECUTORS"], "quick": 300000, "about": "BOOST_THREAD_VERSION 4 with executors (async futures wait in their destructor)"},
   {"name": "x01_v5", "src": "x01.cpp", "lib": "v5", "flags": ["-DBOOST_THREAD_VERSION=5"], "quick": 200000, "about": "BOOST_THREAD_VERSION 5"},
 ]},
 "R01": {"builds": [
   {"name": "r01_v4", "src": "r01.cpp", "lib": "v4", "flags": ["-DBOOST_THREAD_VERSION=4", "-DBOOST_THREAD_PROVIDES_EXECUTORS"], "quick": 150000, "about": "BOOST_THREAD_VERSION 4 with executors"},
   {"name": "r01_v4_async", "src": "r01.cpp", "lib": "v4", "flags": ["-DBOOST_THREAD_VERSION=4"], "quick": 100000, "about": "BOOST_THREAD_VERSION 4 without executors (a thread per task)"},
   {"name": "r01_v5", "src": "r01.cpp", "lib": "v5", "flags": ["-DBOOST_THREAD_VERSION=5"], "quick": 80000, "about": "BOOST_THREAD_VERSION 5"},
 ]},
 "M02": {"builds": [
   {"name": "m02", "src": "m02.cpp", "flags": ["-DBOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS"], "quick": 700000, "about": "default shared_mutex"},
   {"name": "m02_v2", "src": "m02.cpp", "flags": ["-DBOOST_THREAD_V2_SHARED_MUTEX", "-DBOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS"], "quick": 700000, "about": "v2 shared_mutex and upgrade_mutex"},
 ]},
 "O01": {"builds": [
   {"name": "o01", "src": "o01.cpp", "quick": 800000, "about": "atomic once_flag (default)"},
   {"name": "o01_v4", "src": "o01.cpp", "flags": ["-DBOOST_THREAD_VERSION=4"], "quick": 150000, "about": "BOOST_THREAD_VERSION 4"},
   {"name": "o01_cxx11", "src": "o01.cpp", "lib": "cxx11once", "flags": ["-DBOOST_THREAD_PROVIDES_ONCE_CXX11"], "quick": 300000, "about": "constructible once_flag"},
   {"name": "o01_epoch", "src": "o01.cpp", "lib": "epoch", "flags": ["-DBOOST_THREAD_DONT_USE_ATOMIC"], "quick": 500000, "about": "fast-epoch once_flag"},
 ]},
 "B01": {"builds": [
   {"name": "b01", "src": "b01.cpp", "quick": 1200000, "about": "default configuration"},
   {"name": "b01_noint", "src": "b01.cpp", "lib": "noint", "flags": ["-DBOOST_THREAD_DONT_PROVIDE_INTERRUPTIONS"], "quick": 300000, "about": "library built without interruptions"},
 ]},
 "Q01": {"builds": [
   {"name": "q01", "src": "q01.cpp", "quick": 600000, "about": "default configuration"},
 ]},
 "Q02": {"builds": [
   {"name": "q02", "src": "q02.cpp", "quick": 500000, "about": "default configuration"},
 ]},
 "M03": {"builds": [
   {"name": "m03", "src": "m03.cpp", "quick": 700000, "about": "default configuration"},
 ]},
 "M05": {"builds": [
   {"name": "m05", "src": "m05.cpp", "quick": 1200000, "about": "default configuration"},
 ]},
 "H03": {"builds": [
   {"name": "h03", "src": "h03.cpp", "quick": 300000, "about": "default configuration (ids are native handles)"},
   {"name": "h03_noid", "src": "h03.cpp", "lib": "noid", "flags": ["-DBOOST_THREAD_DONT_PROVIDE_BASIC_THREAD_ID"], "quick": 200000, "about": "ids refer to the thread's data"},
   {"name": "h03_noint", "src": "h03.cpp", "lib": "noint", "flags": ["-DBOOST_THREAD_DONT_PROVIDE_INTERRUPTIONS"], "quick": 100000, "about": "library built without interruptions"},
 ]},
 "P01": {"builds": [
   {"name": "p01", "src": "p01.cpp", "quick": 3000000, "about": "default configuration"},
   {"name": "p01_v4", "src": "p01.cpp", "lib": "v4", "flags": ["-DBOOST_THREAD_VERSION=4", "-DBOOST_THREAD_USES_DATETIME"], "quick": 800000, "about": "BOOST_THREAD_VERSION 4"},
   {"name": "p01_noint", "src": "p01.cpp", "lib": "noint", "flags": ["-DBOOST_THREAD_DONT_PROVIDE_INTERRUPTIONS"], "quick": 800000, "about": "library built without interruptions"},
 ]},
 "M04": {"builds": [
   {"name": "m04", "src": "m04.cpp", "flags": ["-DBOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS"], "quick": 600000, "about": "default configuration"},
   {"name": "m04_v4", "src": "m04.cpp", "lib": "v4", "flags": ["-DBOOST_THREAD_VERSION=4", "-DBOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS"], "quick": 400000, "about": "BOOST_THREAD_VERSION 4 (explicit lock conversions)"},
 ]},
}
