EX="vir/simd_execution.h"; PM="vir/simd_permute.h"; SI="vir/simd.h"; SZ="vir/simdize.h"
FB="-std=gnu++20 -O2 -DVIR_DISABLE_STDX_SIMD"; ST="-std=gnu++20 -O2 -march=x86-64-v3"
S("transform-noexcept","C26","a callable passed to transform (in a remainder) that throws","the exception terminates the program instead of reaching the caller",
 [(EX,"""      simdized_load_and_invoke(auto op, vir::constexpr_value auto size, Its... its)
      {""","""      simdized_load_and_invoke(auto op, vir::constexpr_value auto size, Its... its) noexcept
      {""")],r'''
#include <vir/simd_execution.h>
#include <vector>
#include <stdexcept>
#include <unistd.h>
#include <sys/wait.h>
int main() {
  if (int pid = fork()) { int st; waitpid(pid, &st, 0); return !(WIFEXITED(st) && WEXITSTATUS(st) == 0); }
  std::vector<int> v(37), w(37);
  try { vir::transform(vir::execution::simd, v, w, [](auto x) { if (x.size() > 1) throw std::runtime_error("x"); return x; }); }
  catch (const std::runtime_error&) { _exit(0); }
  _exit(1);
}''')
S("prologue-large-range","C14","auto_prologue with a range of more than 1 MiB that is not aligned","the prologue's elements are not visited",
 [(EX,"""              else if (remaining * sizeof(T) > 4000
                         or (to_process & remaining) == to_process) // prologue replaces epilogue
                do_prologue(max_misalignment, to_process);
              else
                return;""","""              else if (remaining * sizeof(T) <= 4000
                         and (to_process & remaining) != to_process) // prologue replaces epilogue
                return;
              else if (remaining * sizeof(T) <= 0x100000)
                do_prologue(max_misalignment, to_process);""")],r'''
#include <vir/simd_execution.h>
#include <vector>
int main() {
  std::vector<float> v(400001);
  vir::for_each(vir::execution::simd.auto_prologue(), v.begin() + 1, v.end(), [](auto& x) { x += 1; });
  for (int i = 1; i < 400001; ++i) if (v[i] != 1) return 1;
  return 0;
}''')
S("transform-advance-narrow","C15","transform with chunks and unrolling that process more than 255 elements per step","iterators are advanced by a wrong distance",
 [(EX,"auto advance = [](int n, auto&... it) { ((it += n), ...); };","auto advance = [](unsigned char n, auto&... it) { ((it += n), ...); };")],r'''
#include <vir/simd_execution.h>
#include <vector>
int main() {
  std::vector<unsigned char> v(1024), w(1024);
  for (int i = 0; i < 1024; ++i) v[i] = i;
  auto e = vir::transform(vir::execution::simd.prefer_size<3>().unroll_by<100>(), v.begin(), v.begin() + 700, w.begin(), [](auto x) { return x + 1; });
  for (int i = 0; i < 700; ++i) if (w[i] != (unsigned char)(i + 1)) return 1;
  return e != w.begin() + 700;
}''')
S("countif-narrow","C16","count_if on a range with more than 127 matching elements per lane","the per-lane counter overflows",
 [(EX,"using IV = detail::deduced_simd<int, TV::size()>;","using IV = detail::deduced_simd<short, TV::size()>;")],r'''
#include <vir/simd_execution.h>
#include <vector>
int main() {
  std::vector<float> v(600000, 1.f);
  return vir::count_if(vir::execution::simd, v.begin(), v.end(), [](auto x) { return x > 0; }) != 600000;
}''')
S("reflect-no-climits","C23","including vir/struct_reflect.h before anything else","the header needs another header to be included first",
 [("vir/struct_reflect.h","#include <climits>\n","")],r'''
#include <vir/struct_reflect.h>
struct A { int x, y; };
int main() { return vir::struct_size_v<A> != 2; }''',"-std=gnu++20 -O1")
S("size-cast-mask-fallback","C11","","",[(SI,"A","B")],"") if False else None
