// Harness main: list | run <group> <seed> <tier> <outfile>
#include "vh.hpp"
#include <Kokkos_Core.hpp>
#ifdef VH_MPI
#include <mpi.h>
#endif
int main(int argc, char** argv) {
  using namespace vh;
  if (argc >= 2 && std::string(argv[1]) == "list") { for (auto& g : groups()) printf("%s\n", g.name.c_str()); return 0; }
  if (argc < 6) { fprintf(stderr, "usage\n"); return 3; }
  std::string gname = argv[2];
  for (auto& g : groups()) if (g.name == gname) {
    Ctx c; c.group = gname; c.seed = strtoull(argv[3], 0, 10); c.thorough = std::string(argv[4]) == "thorough";
    c.out = fopen(argv[5], "w"); if (!c.out) return 3;
    c.rng = Rng(mix(c.seed) ^ hstr(gname));
    int ac = 1; char* av[] = {argv[0], nullptr}; char** avp = av;
#ifdef VH_MPI
    MPI_Init(&ac, &avp);
#endif
    Kokkos::initialize(ac, avp);
    try { g.fn(c); }
    catch (const std::exception& e) { c.fail("uncaught-exception:" + gname, std::string(e.what()).substr(0, 800)); }
    catch (...) { c.fail("uncaught-exception:" + gname, "unknown"); }
    fprintf(c.out, "{\"t\":\"done\",\"group\":\"%s\",\"evals\":%ld,\"events\":%ld,\"distinct\":%zu,\"monitors\":{", Ctx::esc(gname).c_str(), c.evals, c.events, c.distinct.size());
    bool f = true; for (auto& m : c.monitors) { fprintf(c.out, "%s\"%s\":%ld", f ? "" : ",", Ctx::esc(m.first).c_str(), m.second); f = false; }
    fprintf(c.out, "},\"failures\":{"); f = true;
    for (auto& m : c.failures) { fprintf(c.out, "%s\"%s\":%ld", f ? "" : ",", Ctx::esc(m.first).c_str(), m.second); f = false; }
    fprintf(c.out, "},\"samples\":["); f = true;
    for (auto& s : c.samples) { fprintf(c.out, "%s\"%s\"", f ? "" : ",", Ctx::esc(s).c_str()); f = false; }
    fprintf(c.out, "]}\n"); fclose(c.out);
    Kokkos::finalize();
#ifdef VH_MPI
    MPI_Finalize();
#endif
    return 0;
  }
  fprintf(stderr, "no such group\n"); return 3;
}
