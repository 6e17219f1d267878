// Holds objects of the C++ implementation, and does with them what it is told: one JSON command per line on
// standard input, one JSON answer per line on the file descriptor that standard output was at the start.
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <nlohmann/json.hpp>
#include <string>
#include <vector>

#include "dmp/Dmp.hpp"
#include "dmp/Trajectory.hpp"
#include "dynamicalsystems/DynamicalSystem.hpp"
#include "dynamicalsystems/ExponentialSystem.hpp"
#include "dynamicalsystems/SigmoidSystem.hpp"
#include "dynamicalsystems/SpringDamperSystem.hpp"
#include "dynamicalsystems/TimeSystem.hpp"
#include "eigenutils/eigen_file_io.hpp"
#include "eigenutils/eigen_json.hpp"
#include "functionapproximators/BasisFunction.hpp"
#include "functionapproximators/FunctionApproximator.hpp"

using namespace DmpBbo;
using namespace Eigen;
using nlohmann::json;
using std::string;

// ---------------------------------------------------------------- memory
static bool counting = false;
static int allocations = 0;

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { allocations += counting; return __libc_malloc(n); }
void* calloc(size_t n, size_t m) { allocations += counting; return __libc_calloc(n, m); }
void* realloc(void* p, size_t n) { allocations += counting; return __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { allocations += counting; return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { allocations += counting; return __libc_memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { allocations += counting; *p = __libc_memalign(a, n); return *p ? 0 : 12; }
}

/// Counts what is allocated from its construction to stop().
struct Count {
  Count() { allocations = 0; counting = true; }
  int stop() { counting = false; return allocations; }
  ~Count() { counting = false; }
};

// ---------------------------------------------------------------- values
static VectorXd vec(const json& j)
{
  VectorXd v(j.size());
  for (size_t i = 0; i < j.size(); i++) v(i) = j[i].get<double>();
  return v;
}

static MatrixXd mat(const json& j, int cols = -1)
{
  int c = cols >= 0 ? cols : j.empty() ? 0 : (int)j[0].size();
  MatrixXd m(j.size(), c);
  for (size_t i = 0; i < j.size(); i++)
    for (int k = 0; k < c; k++) m(i, k) = j[i][k].get<double>();
  return m;
}

static json out(const VectorXd& v)
{
  json j = json::array();
  for (int i = 0; i < v.size(); i++) j.push_back(v(i));
  return j;
}

static json outm(const MatrixXd& m)
{
  json j = json::array();
  for (int i = 0; i < m.rows(); i++) j.push_back(out(m.row(i)));
  return j;
}

static json outt(const Trajectory& t)
{
  return json{{"ts", out(t.ts())}, {"ys", outm(t.ys())}, {"yds", outm(t.yds())}, {"ydds", outm(t.ydds())}, {"misc", outm(t.misc())}};
}

// ---------------------------------------------------------------- objects
struct Object {
  Dmp* dmp = NULL;
  DynamicalSystem* sys = NULL;  // also when it is a DMP
  FunctionApproximator* fa = NULL;
  // outputs of earlier calls, kept for the next ones
  MatrixXd xs, xds, forcing, fas, outputs;
  VectorXd output, y, yd, ydd;
};

static std::map<int, Object> objects;

// A DMP that a program constructs, instead of reading it. NULL if there is no way to.
static Dmp* construct(const json& j, const string& form)
{
  double tau = j.at("_tau"), d = j.at("_spring_system").at("damping_coefficient");
  VectorXd y0 = vec(j.at("_y_init")), g = vec(j.at("_y_attr")), amps;
  const json& goal = j.at("_goal_system");
  const json& phase = j.at("_phase_system");
  if (j.at("_spring_system").at("spring_constant") != d * d / 4 || j.at("_spring_system").at("mass") != 1.0) return NULL;
  if (!goal.is_null() && goal.at("_x_attr") != j.at("_y_attr")) return NULL;
  string scaling = j.at("_forcing_term_scaling");
  if (j.at("_scaling_amplitudes").is_array()) amps = vec(j.at("_scaling_amplitudes"));
  std::vector<FunctionApproximator*> fas;
  if (j.at("_function_approximators").is_array())
    for (const json& f : j.at("_function_approximators")) {
      if (f.at("_model_params").is_null()) return NULL;
      fas.push_back(f.get<FunctionApproximator*>());
    }
  string type = goal.is_null() ? "IJSPEERT_2002_MOVEMENT" : "KULVICIUS_2012_JOINING";
  if (phase.at("class") == "TimeSystem" && phase.at("_count_down").get<int>()) type = "COUNTDOWN_2013";
  bool standard = d == 20 && (goal.is_null() || goal.at("alpha") == 15);
  Dmp* r = NULL;
  if (form == "systems")
    r = new Dmp(tau, y0, g, fas, d, goal.is_null() ? NULL : goal.get<ExponentialSystem*>(), phase.get<DynamicalSystem*>(),
                j.at("_gating_system").get<DynamicalSystem*>(), scaling, amps);
  else if (form == "type" && standard)
    r = new Dmp(tau, y0, g, fas, type, scaling, amps);
  else if (form == "type later" && standard)
    r = new Dmp(y0.size(), fas, type, scaling, amps);
  else if (form == "spring" && fas.empty() && scaling == "NO_SCALING" && phase.at("class") == "ExponentialSystem")
    r = new Dmp(tau, y0, g, d, goal.is_null() ? NULL : goal.get<ExponentialSystem*>());
  if (r && form == "type later") {
    r->set_tau(tau);
    r->set_y_init(y0);
    r->set_y_attr(g);
  }
  return r;
}

static json load(const json& c)
{
  std::ifstream file(c.at("file").get<string>());
  json j = json::parse(file);
  Object o;
  string what = c.at("what");
  if (what == "dmp") {
    o.dmp = construct(j, c.value("form", "read"));
    if (!o.dmp) o.dmp = j.get<Dmp*>();
    o.sys = o.dmp;
  } else if (what == "system") {
    o.sys = j.get<DynamicalSystem*>();
  } else {
    o.fa = j.get<FunctionApproximator*>();
  }
  if (!o.sys && !o.fa) throw std::runtime_error("nothing was loaded");
  int id = c.at("id");
  objects[id] = o;
  json r = {{"kind", what}};
  if (o.sys) r.update({{"dim_x", o.sys->dim_x()}, {"dim_y", o.sys->dim_y()}, {"tau", o.sys->tau()}, {"x_init", out(o.sys->x_init())}});
  return r;
}

static json set(Object& o, const json& c)
{
  string what = c.at("what");
  const json& v = c.at("v");
  ExponentialSystem* e = dynamic_cast<ExponentialSystem*>(o.sys);
  SigmoidSystem* g = dynamic_cast<SigmoidSystem*>(o.sys);
  SpringDamperSystem* s = dynamic_cast<SpringDamperSystem*>(o.sys);
  if (what == "tau") o.sys->set_tau(v);
  else if (what == "y_init") {
    if (o.dmp) o.dmp->set_y_init(vec(v));
    else o.sys->set_y_init(vec(v));
  }
  else if (what == "y_init_ref") {      // the other function of the same name
    VectorXd y = vec(v);
    Ref<const VectorXd> r(y);
    o.sys->set_y_init(r);
  }
  else if (what == "x_init") o.sys->set_x_init(vec(v));
  else if (what == "y_attr") {
    if (o.dmp) o.dmp->set_y_attr(vec(v));
    else if (e) e->set_y_attr(vec(v));
    else if (s) s->set_y_attr(vec(v));
    else throw std::runtime_error("no attractor");
  }
  else if (what == "x_attr") e->set_x_attr(vec(v));
  else if (what == "rmax") g->set_max_rate(v);
  else if (what == "d") { if (o.dmp) o.dmp->set_damping_coefficient(v); else s->set_damping_coefficient(v); }
  else if (what == "k") { if (o.dmp) o.dmp->set_spring_constant(v); else s->set_spring_constant(v); }
  else if (what == "m") s->set_mass(v);
  else throw std::runtime_error("no such setting");
  return json::object();
}

static json read(Object& o)
{
  json r = {{"tau", o.sys->tau()}, {"x_init", out(o.sys->x_init())}, {"dim_x", o.sys->dim_x()}, {"dim_y", o.sys->dim_y()}, {"dim", o.sys->dim()}};
  VectorXd y, x;
  if (o.dmp) {
    o.dmp->get_y_init(y);
    if (y != o.dmp->y_init()) throw std::runtime_error("two initial states");
  } else o.sys->get_y_init(y);
  o.sys->get_x_init(x);
  if (x != o.sys->x_init()) throw std::runtime_error("two initial states");
  r["y_init"] = out(y);
  VectorXd a;
  if (ExponentialSystem* e = dynamic_cast<ExponentialSystem*>(o.sys)) e->get_y_attr(a);
  if (SpringDamperSystem* s = dynamic_cast<SpringDamperSystem*>(o.sys)) s->get_y_attr(a);
  if (o.dmp) r["dim_dmp"] = o.dmp->dim_dmp();
  r["attr"] = out(a);
  return r;
}

static json start(Object& o, const json& c)
{
  VectorXd x = VectorXd::Constant(o.sys->dim_x(), 77.0), xd = VectorXd::Constant(o.sys->dim_x(), -77.0);
  if (c.contains("y0")) {
    o.sys->integrateStart(vec(c["y0"]), x, xd);
  } else
    o.sys->integrateStart(x, xd);
  return {{"x", out(x)}, {"xd", out(xd)}};
}

static json rate(Object& o, const json& c)
{
  VectorXd x = vec(c.at("x")), keep = x, xd = VectorXd::Constant(x.size(), 77.0);
  Count n;
  o.sys->differentialEquation(x, xd);
  int k = n.stop();
  return {{"xd", out(xd)}, {"allocs", k}, {"unmodified", x == keep}};
}

static json step(Object& o, const json& c)
{
  VectorXd x = vec(c.at("x")), keep = x, x2 = VectorXd::Constant(x.size(), 77.0), xd2 = x2;
  string method = c.at("method");
  double dt = c.at("dt");
  bool inplace = c.value("inplace", false);
  Count n;
  VectorXd& to = inplace ? x : x2;
  if (method == "euler") o.sys->integrateStepEuler(dt, x, to, xd2);
  else if (method == "rk") o.sys->integrateStepRungeKutta(dt, x, to, xd2);
  else o.sys->integrateStep(dt, x, to, xd2);
  int k = n.stop();
  return {{"x2", out(to)}, {"xd2", out(xd2)}, {"allocs", k}, {"unmodified", inplace || x == keep}};
}

// A control loop: all states and rates, written in place, with the outputs of a DMP
static json loop(Object& o, const json& c)
{
  int steps = c.at("steps");
  double dt = c.at("dt");
  string method = c.at("method");
  VectorXd x(o.sys->dim_x()), xd(o.sys->dim_x());
  MatrixXd xs(steps, x.size()), xds(steps, x.size());
  VectorXd y(o.sys->dim_y()), yd(y), ydd(y);
  o.sys->integrateStart(x, xd);
  int all = 0;
  for (int i = 0; i < steps; i++) {
    if (i > 0) {
      Count n;
      if (method == "euler") o.sys->integrateStepEuler(dt, x, x, xd);
      else if (method == "rk") o.sys->integrateStepRungeKutta(dt, x, x, xd);
      else o.sys->integrateStep(dt, x, x, xd);
      if (o.dmp) o.dmp->stateAsPosVelAcc(x, xd, y, yd, ydd);
      all += n.stop();
    }
    xs.row(i) = x;
    xds.row(i) = xd;
  }
  return {{"xs", outm(xs)}, {"xds", outm(xds)}, {"allocs", all}};
}

static json solution(Object& o, const json& c)
{
  VectorXd ts = vec(c.at("ts")), keep = ts;
  string form = c.value("form", "fresh");
  int T = ts.size(), D = o.sys->dim_x();
  MatrixXd xs, xds, forcing, fas;
  bool transposed = form == "transposed" && T != D;
  if (form == "sized" && T != D) { xs = xds = MatrixXd::Constant(T, D, 77.0); }
  if (transposed) { xs = xds = MatrixXd::Constant(D, T, 77.0); }
  if (form == "again" && T != D) { xs = o.xs; xds = o.xds; forcing = o.forcing; fas = o.fas; }
  if (form == "again" && (xs.rows() == D && xs.cols() == T)) { xs.resize(0, 0); xds.resize(0, 0); }
  json r;
  if (o.dmp) {
    if (form == "short" && T != D) o.dmp->analyticalSolution(ts, xs, xds);
    o.dmp->analyticalSolution(ts, xs, xds, forcing, fas);
    r["forcing"] = outm(forcing);
    r["fas"] = outm(fas);
  } else
    o.sys->analyticalSolution(ts, xs, xds);
  if (transposed) {
    xs.transposeInPlace();
    xds.transposeInPlace();
  }
  o.xs = xs; o.xds = xds; o.forcing = forcing; o.fas = fas;
  r["xs"] = outm(xs);
  r["xds"] = outm(xds);
  r["unmodified"] = ts == keep;
  if (o.dmp && !transposed && c.value("traj", false)) {
    Trajectory a, b;
    o.dmp->analyticalSolution(ts, a);
    o.dmp->analyticalSolution(ts, b, forcing);
    json ja = outt(a), jb = outt(b);
    if (ja != jb) throw std::runtime_error("two trajectories");
    r["trajectory"] = ja;
  }
  return r;
}

static json traj(Object& o, const json& c)
{
  if (c.contains("ts")) {
    VectorXd ts = vec(c["ts"]);
    MatrixXd xs = mat(c.at("xs")), xds = mat(c.at("xds"));
    Trajectory t;
    o.dmp->statesAsTrajectory(ts, xs, xds, t);
    MatrixXd y, yd, ydd;
    o.dmp->statesAsTrajectory(xs, xds, y, yd, ydd);
    if (y != t.ys() || yd != t.yds() || ydd != t.ydds()) throw std::runtime_error("two trajectories");
    return outt(t);
  }
  VectorXd x = vec(c.at("xs")), xd = vec(c.at("xds"));
  int n = o.sys->dim_y();
  VectorXd y(n), yd(n), ydd(n);
  Count k;
  o.dmp->stateAsPosVelAcc(x, xd, y, yd, ydd);
  int a = k.stop();
  return {{"ys", out(y)}, {"yds", out(yd)}, {"ydds", out(ydd)}, {"allocs", a}};
}

static json predict(Object& o, const json& c)
{
  MatrixXd x = mat(c.at("xs")), keep = x;
  MatrixXd ys = c.value("again", false) ? o.outputs : MatrixXd(0, 0);
  o.fa->predict(x, ys);
  o.outputs = ys;
  json rt = json::array();
  int all = 0;
  VectorXd y(1);
  for (int i = 0; i < x.rows(); i++) {
    RowVectorXd row = x.row(i);
    Count n;
    o.fa->predictRealTime(row, y);
    all += n.stop();
    rt.push_back(out(y));
  }
  return {{"ys", outm(ys)}, {"rt", rt}, {"allocs", all}, {"unmodified", x == keep}};
}

static json generate(const json& c)
{
  string what = c.at("what");
  VectorXd ts = vec(c.at("ts"));
  const json& p = c.at("p");
  if (what == "minjerk") return outt(Trajectory::generateMinJerkTrajectory(ts, vec(p[0]), vec(p[1])));
  if (what == "polynomial")
    return outt(Trajectory::generatePolynomialTrajectory(ts, vec(p[0]), vec(p[1]), vec(p[2]), vec(p[3]), vec(p[4]), vec(p[5])));
  return outt(Trajectory::generatePolynomialTrajectoryThroughViapoint(ts, vec(p[0]), vec(p[1]), p[2], vec(p[3])));
}

static Trajectory trajectory(const json& t)
{
  VectorXd ts = vec(t.at("ts"));
  MatrixXd ys = mat(t.at("ys")), yds = mat(t.at("yds")), ydds = mat(t.at("ydds"));
  if (t.contains("misc") && !t["misc"].empty()) return Trajectory(ts, ys, yds, ydds, mat(t["misc"]));
  return Trajectory(ts, ys, yds, ydds);
}

static json edit(const json& c)
{
  string what = c.at("what");
  json r;
  Trajectory t;
  if (what == "file") t = Trajectory::readFromFile(c.at("file").get<string>(), c.value("misc", 0));
  else t = trajectory(c.at("t"));
  if (what == "append") {
    Trajectory u = trajectory(c.at("other"));
    json keep = outt(u);
    t.append(u);
    r["unmodified"] = outt(u) == keep;
  }
  if (what == "misc") t.set_misc(mat(c.at("v")));
  if (what == "save") {
    bool overwrite = c.at("overwrite");
    if (c.contains("directory")) r["saved"] = t.saveToFile(c["directory"].get<string>(), c.at("file").get<string>(), overwrite);
    else r["saved"] = overwrite ? t.saveToFile(c.at("file").get<string>(), true) : t.saveToFile(c.at("file").get<string>());
  }
  r.update(outt(t));
  MatrixXd m;
  t.asMatrix(m);
  r.update({{"duration", t.duration()}, {"range", out(t.getRangePerDim())}, {"initial", out(t.initial_y())}, {"final", out(t.final_y())},
            {"length", t.length()}, {"dim", t.dim()}, {"dim_misc", t.dim_misc()}, {"matrix", outm(m)}});
  return r;
}

template <typename M>
static json save(const json& c, const M& m)
{
  string file = c.at("file");
  bool saved, by_default = c.at("overwrite").is_null(), overwrite = !by_default && c["overwrite"].get<bool>();
  if (c.contains("directory")) {
    string d = c["directory"];
    saved = by_default ? saveMatrix(d, file, m) : saveMatrix(d, file, m, overwrite);
  } else
    saved = by_default ? saveMatrix(file, m) : saveMatrix(file, m, overwrite);
  return {{"saved", saved}};
}

template <typename M>
static json fetch(const json& c, M m)
{
  M keep = m;
  bool loaded = loadMatrix(c.at("file").get<string>(), m);
  bool same = m.rows() == keep.rows() && m.cols() == keep.cols() && m == keep;
  return {{"loaded", loaded}, {"m", outm(m)}, {"rows", m.rows()}, {"cols", m.cols()}, {"unmodified", same}};
}

// Files and JSON of matrices and vectors
static json matrix(const json& c)
{
  string what = c.at("what");
  bool vector = c.at("vector");
  if (what == "save") return vector ? save(c, vec(c.at("m"))) : save(c, mat(c.at("m"), c.at("cols")));
  if (what == "load") return vector ? fetch(c, VectorXd(VectorXd::Constant(2, 77.0))) : fetch(c, MatrixXd(MatrixXd::Constant(2, 3, 77.0)));
  if (what == "to json") {
    json j;
    if (vector) {
      VectorXd v = vec(c.at("m"));
      Eigen::to_json(j, v);
    } else {
      MatrixXd m = mat(c.at("m"), c.at("cols"));
      Eigen::to_json(j, m);
    }
    return {{"text", j.dump()}};
  }
  json j = json::parse(c.at("text").get<string>());
  if (vector) {
    VectorXd v = VectorXd::Constant(2, 77.0);
    Eigen::from_json(j, v);
    return {{"m", outm(v)}, {"rows", v.rows()}, {"cols", 1}};
  }
  MatrixXd m = MatrixXd::Constant(2, 3, 77.0);
  Eigen::from_json(j, m);
  return {{"m", outm(m)}, {"rows", m.rows()}, {"cols", m.cols()}};
}

// Basis functions, called directly
static json basis(const json& c)
{
  string what = c.at("what");
  MatrixXd xs = mat(c.at("xs")), keep = xs, a;
  if (c.at("sized")) a = MatrixXd::Constant(xs.rows(), c["centers"].size(), 77.0);
  MatrixXd centers = mat(c.at("centers"));
  bool normalized = c.at("normalized"), by_default = c.at("by_default");
  if (what == "gaussian")
    BasisFunction::Gaussian::activations(centers, mat(c.at("widths")), xs, a, normalized, c.at("asymmetric"));
  if (what == "covariances") {
    std::vector<VectorXd> mus;
    std::vector<MatrixXd> covars;
    std::vector<double> priors;
    for (int i = 0; i < centers.rows(); i++) {
      mus.push_back(centers.row(i));
      covars.push_back(mat(c.at("covars")[i]));
      priors.push_back(c.at("priors")[i]);
    }
    if (by_default && !normalized) BasisFunction::Gaussian::activations(mus, covars, priors, xs, a);
    else BasisFunction::Gaussian::activations(mus, covars, priors, xs, a, normalized);
  }
  VectorXd phases = c.contains("phases") ? vec(c["phases"]) : VectorXd();
  if (what == "cosines") BasisFunction::Cosine::activations(centers, phases, xs, a);
  if (what == "cosine") {
    std::vector<MatrixXd> frequencies;
    std::vector<VectorXd> shifts;
    for (int i = 0; i < centers.rows(); i++) {
      frequencies.push_back(centers.row(i));
      shifts.push_back(phases.segment(i, 1));
    }
    BasisFunction::Cosine::activations(frequencies, shifts, xs, a);
  }
  return {{"a", outm(a)}, {"unmodified", xs == keep}};
}

static json run(const json& c)
{
  string op = c.at("op");
  if (op == "matrix") return matrix(c);
  if (op == "basis") return basis(c);
  if (op == "load") return load(c);
  if (op == "generate") return generate(c);
  if (op == "edit") return edit(c);
  auto it = objects.find(c.at("id").get<int>());
  if (it == objects.end()) throw std::runtime_error("no such object");
  Object& o = it->second;
  if (op == "free") {
    delete (o.fa);
    if (o.sys) delete o.sys;
    objects.erase(it);
    return json::object();
  }
  if (op == "set") return set(o, c);
  if (op == "read") return read(o);
  if (op == "start") return start(o, c);
  if (op == "rate") return rate(o, c);
  if (op == "step") return step(o, c);
  if (op == "loop") return loop(o, c);
  if (op == "solution") return solution(o, c);
  if (op == "traj") return traj(o, c);
  if (op == "predict") return predict(o, c);
  throw std::runtime_error("no such command");
}

int main()
{
  FILE* answers = fdopen(dup(1), "w");
  dup2(2, 1);  // (the library writes warnings to standard output)
  string line;
  while (std::getline(std::cin, line)) {
    json r;
    try {
      r = run(json::parse(line));
      r["ok"] = true;
    } catch (const std::exception& e) {
      r = {{"ok", false}, {"what", e.what()}};
    }
    string s = r.dump();
    fprintf(answers, "%s\n", s.c_str());
    fflush(answers);
  }
  return 0;
}
