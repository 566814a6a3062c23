"""Compiles driver units against the repository and normalises them."""
import hashlib
import json
import os
import shutil
import subprocess
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor

from .ir import AnalysisBroken, Program

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("KPSR_REPO", "/repo")
TOOLSRC = os.path.join(VERIF, "tool", "kir.cpp")
LLVM = "/usr/lib/llvm-18"
CLANG = shutil.which("clang++") or LLVM + "/bin/clang++"

INCLUDES = [
    "serialization/modules/serialization/include",
    "core/modules/core/include",
    "core/modules/mem_mdlw/include",
    "core/modules/socket_mdlw/include",
    "core/modules/zmq_mdlw/include",
    "high_performance/modules/high_performance/include",
    "state_machine/modules/state_machine/include",
    "state_machine/modules/json_conf/include",
]

LIB_KEEP = [
    r"^std::__cxx11::", r"^std::basic_", r"^std::(map|multimap|set|multiset|list|deque|queue|stack|unordered_map|unordered_set|priority_queue|function|thread|packaged_task|future|promise|mutex|recursive_mutex|timed_mutex|random_device)::",
    r"^std::_Rb_tree::", r"^std::_(Deque|List|Hashtable|Vector)_base", r"^std::_Hash",
    r"^std::__shared_count", r"^std::_Sp_", r"^std::vector::(_M_|push_back|emplace|insert|erase|resize|reserve|assign|clear|operator=|vector|~vector|swap|shrink_to_fit|pop_back)",
    r"^std::__shared_ptr::(__shared_ptr|~__shared_ptr|operator=|reset|swap)", r"^std::shared_ptr::(shared_ptr|~shared_ptr|operator=)",
    r"^std::(make_shared|allocate_shared)$", r"^std::make_unique$",
    r"^std::this_thread::", r"^std::to_string",
    r"^std::(operator\+|operator<<|operator>>)$",
    r"^std::filesystem",
    r"^std::chrono::.*::now$",
    
    r"^std::__throw", r"^std::__uninitialized", r"^std::uninitialized", r"^std::_Destroy", r"^std::__relocate",
]
LIB_INLINE = [
    r"^std::(__)?atomic", r"^std::atomic", r"^std::operator[&|]$", r"^std::__cmpexch", r"^std::__memory_order",
    r"^std::(lock_guard|unique_lock|scoped_lock|shared_lock)::", r"^std::(apply|__apply_impl|__size_to_integer|__copy_n|__copy_n_a)$",
    r"^std::(move|forward|addressof|__addressof|swap|exchange|min|max|get|ref|cref|make_pair|begin|end|cbegin|cend|size|next|prev|advance|distance|as_const|tie|back_inserter|front_inserter|inserter|__get_helper2|__exchange|invoke|__get_helper|clamp)$",
    r"^std::vector::(begin|end|cbegin|cend|rbegin|rend|size|empty|operator\[\]|front|back|data|capacity)$",
    r"^std::array::", r"^std::initializer_list::",
    r"^std::_(Rb_tree|List)_node::_M_valptr$", r"^__gnu_cxx::__aligned_(buffer|membuf)::", r"^std::__detail::(operator|_Node_iterator|_Node_const_iterator|_Node_iterator_base|_Hash_node)", r"^__gnu_cxx::(__normal_iterator|operator|__ops)", r"^std::(reverse_iterator|back_insert_iterator|front_insert_iterator|insert_iterator)",
    r"^std::(unique_ptr|__uniq_ptr_impl|__uniq_ptr_data|default_delete|tuple|_Tuple_impl|_Head_base|pair|__pair_base|__pair_get)::",
    r"^std::operator(==|!=|<|>|<=|>=)$",
    r"^std::chrono::", r"^std::__condvar::",
    r"^std::__shared_ptr::(get|operator bool)$", r"^std::__shared_ptr_access::", r"^std::shared_ptr::get",
    r"^std::(min_element|max_element|for_each|find_if|find|find_if_not|any_of|all_of|none_of|count_if|count|accumulate|copy|copy_n|fill|fill_n|transform|move_backward|copy_backward|generate|iota|lower_bound|upper_bound)$",
    r"^std::__(min_element|max_element|find_if|find_if_not|invoke|invoke_impl|copy_move|count_if|miter|niter|fill|for_each|iterator_category|distance|advance|invoke_r)", r"^std::__copy",
    r"^std::(_Rb_tree_iterator|_Rb_tree_const_iterator|_List_iterator|_List_const_iterator|_Deque_iterator)::",
    r"^std::(bind|_Bind|reference_wrapper)", r"^std::numeric_limits::", r"^std::char_traits::", r"^std::numeric", r"^std::abs$",
    r"^std::optional::", r"^std::_Optional", r"^std::function::operator bool$", r"^std::_Function_base::_M_empty",
    r"^std::operator\|$", r"^std::enable_shared_from_this", r"^std::mem_fn",
]
NOTHROW = [
    r"^std::(recursive_|timed_|recursive_timed_|shared_|shared_timed_)?mutex::(lock|unlock|lock_shared|unlock_shared|try_lock)$",
    r"^std::(_V2::)?condition_variable(_any)?::", r"^std::this_thread::", r"^__cxa_end_catch$", r"^sched_yield$",
    r"^std::chrono::", r"^std::(__)?shared_(ptr|count)::~", r"^std::__shared_ptr::~",
]
ERASE = [r"^spdlog::", r"^fmt::"]


_lock = threading.Lock()


def tool():
    """Path of the normaliser, built on demand from tool/kir.cpp."""
    with _lock:
        return _tool()


def _tool():
    h = hashlib.sha256(open(TOOLSRC, "rb").read()).hexdigest()[:16]
    cands = [os.path.join(VERIF, ".build"), os.path.join(tempfile.gettempdir(), "kpsr-verif-%d" % os.getuid())]
    for d in cands:
        p = os.path.join(d, "kir-" + h)
        if os.access(p, os.X_OK):
            return p
    for d in cands:
        try:
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "kir-" + h)
            tmp = p + ".%d" % os.getpid()
            cmd = [CLANG, "-O1", "-I" + LLVM + "/include", "-std=c++17", "-fno-exceptions", "-fno-rtti",
                   "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
                   TOOLSRC, "-o", tmp, "-L" + LLVM + "/lib", "-lLLVM-18", "-Wl,-rpath," + LLVM + "/lib"]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken("cannot build the normaliser:\n" + r.stderr[-2000:])
            os.replace(tmp, p)
            return p
        except OSError:
            continue
    raise AnalysisBroken("no writable place for the normaliser")


def flags(repo=None, stubs=True, extra=()):
    repo = repo or REPO
    f = ["-std=c++17", "-g", "-fstandalone-debug", "-O1", "-Xclang", "-disable-llvm-passes", "-Xclang",
         "-disable-lifetime-markers", "-fno-discard-value-names", "-DHAS_EPOLL", "-w", "-ferror-limit=5"]
    f += ["-include", os.path.join(VERIF, "stubs", "kpsr_algo_model.h")]
    f += ["-I%s/%s" % (repo, i) for i in INCLUDES]
    for d in ("/usr/include/concurrentqueue/moodycamel", "/usr/include/concurrentqueue"):
        if os.path.isdir(d):
            f.append("-I" + d)
    if stubs:
        f.append("-I" + os.path.join(VERIF, "stubs"))
    f += list(extra)
    return f


class Workspace:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="kpsr-sa-")
        self.bc = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def bitcode(self, src, defs=()):
        key = (src, tuple(defs))
        if key in self.bc:
            return self.bc[key]
        out = os.path.join(self.dir, hashlib.sha1(repr(key).encode()).hexdigest()[:12] + ".bc")
        cmd = [CLANG] + flags(extra=["-D" + d for d in defs]) + ["-emit-llvm", "-c", src, "-o", out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("unit does not compile: %s\n%s" % (src, r.stderr[:1500]))
        self.bc[key] = out
        return out

    def program(self, src, roots, keep=(), defs=(), inline=(), libkeep=(), noopt=False, dyn=None):
        bc = self.bitcode(src, defs)
        out = os.path.join(self.dir, hashlib.sha1(repr((src, roots, keep, defs, inline, libkeep, dyn)).encode()).hexdigest()[:12] + ".json")
        cmd = [tool(), bc, "-o", out, "-two-entry-phi-node-folding-threshold=0", "-phi-node-folding-threshold=0", "--repo=" + REPO + "/", "--repo=" + VERIF + "/"]
        cmd += ["--root=" + r for r in roots] + ["--keep=" + k for k in keep]
        if dyn:
            cmd += ["--dyn-class=" + dyn[0], "--dyn-root=" + dyn[1]]
        cmd += ["--lib-keep=" + k for k in list(libkeep) + LIB_KEEP if k not in inline] + ["--lib-inline=" + k for k in list(inline) + LIB_INLINE]
        cmd += ["--erase=" + k for k in ERASE]
        cmd += ["--nothrow=" + k for k in NOTHROW]
        if noopt:
            cmd.append("--noopt")
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("normaliser failed on %s: %s" % (src, r.stderr[-2000:]))
        with open(out) as f:
            return Program(json.load(f), REPO)


def par(fs):
    with ThreadPoolExecutor(8) as ex:
        return [f.result() for f in [ex.submit(g) for g in fs]]
