// Executes a job (a JSON list of operations on named objects) against the real C++ classes and
// reports every output, and in the hook variants how much memory was allocated and released inside
// each real-time call.
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "dmp/Dmp.hpp"
#include "dmp/Trajectory.hpp"
#include "dynamicalsystems/DynamicalSystem.hpp"
#include "dynamicalsystems/ExponentialSystem.hpp"
#include "dynamicalsystems/SigmoidSystem.hpp"
#include "dynamicalsystems/SpringDamperSystem.hpp"
#include "dynamicalsystems/TimeSystem.hpp"
#include "eigenutils/eigen_file_io.hpp"
#include "eigenutils/eigen_json.hpp"
#include "functionapproximators/BasisFunction.hpp"
#include "functionapproximators/FunctionApproximator.hpp"
#include "functionapproximators/FunctionApproximatorLWR.hpp"
#include "functionapproximators/FunctionApproximatorRBFN.hpp"

#include <nlohmann/json.hpp>

using namespace DmpBbo;
using Eigen::MatrixXd;
using Eigen::RowVectorXd;
using Eigen::VectorXd;
using nlohmann::json;

// ------------------------------------------------------------------ memory hooks
static volatile long g_allocs = 0, g_frees = 0;
static volatile bool g_on = false;
#ifdef DRIVER_HOOKS
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void* malloc(size_t n)
{
  if (g_on) g_allocs = g_allocs + 1;
  return __libc_malloc(n);
}
void free(void* p)
{
  if (g_on && p) g_frees = g_frees + 1;
  __libc_free(p);
}
void* calloc(size_t n, size_t m)
{
  if (g_on) g_allocs = g_allocs + 1;
  return __libc_calloc(n, m);
}
void* realloc(void* p, size_t n)
{
  if (g_on) g_allocs = g_allocs + 1;
  return __libc_realloc(p, n);
}
void* memalign(size_t a, size_t n)
{
  if (g_on) g_allocs = g_allocs + 1;
  return __libc_memalign(a, n);
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n)
{
  *p = memalign(a, n);
  return *p ? 0 : 12;
}
}
#endif
// One real-time call: counts what it allocates and releases. Optionally the call must also keep
// Eigen's own allocation check quiet.
#define RT(stmt)                            \
  do {                                      \
    g_allocs = 0;                           \
    g_frees = 0;                            \
    g_on = true;                            \
    stmt;                                   \
    g_on = false;                           \
    rt_calls++;                             \
    if (g_allocs + g_frees > 0) rt_bad++;   \
    if (g_allocs + g_frees > 0 && rt_first < 0) rt_first = rt_calls - 1; \
  } while (0)
static long rt_calls = 0, rt_bad = 0, rt_first = -1;

// ------------------------------------------------------------------ conversions
static VectorXd vec(const json& j)
{
  VectorXd v(j.size());
  for (size_t i = 0; i < j.size(); i++) v[i] = j[i].get<double>();
  return v;
}
static MatrixXd mat(const json& j)
{
  if (j.is_object()) return MatrixXd(j["rows"].get<int>(), j["cols"].get<int>()).setZero();
  if (j.empty()) return MatrixXd(0, 0);
  MatrixXd m(j.size(), j[0].size());
  for (size_t r = 0; r < j.size(); r++)
    for (size_t c = 0; c < j[r].size(); c++) m(r, c) = j[r][c].get<double>();
  return m;
}
static json num(double d)
{
  if (d != d) return "nan";
  if (d > 1.7976931348623157e308) return "inf";
  if (d < -1.7976931348623157e308) return "-inf";
  return d;
}
template <typename D>
static json out(const Eigen::MatrixBase<D>& m)
{
  json j;
  j["shape"] = {m.rows(), m.cols()};
  json data = json::array();
  for (int r = 0; r < m.rows(); r++)
    for (int c = 0; c < m.cols(); c++) data.push_back(num(m(r, c)));
  j["data"] = data;
  return j;
}

// ------------------------------------------------------------------ objects
struct Ds {
  DynamicalSystem* p = nullptr;
  Dmp* dmp = nullptr;
};
static std::map<std::string, Ds> g_ds;
static std::map<std::string, FunctionApproximator*> g_fa;
static std::map<std::string, Trajectory> g_traj;

static json load_file(const std::string& f)
{
  std::ifstream in(f);
  json j;
  in >> j;
  return j;
}

static json traj_out(const Trajectory& t)
{
  json r;
  r["length"] = t.length();
  r["dim"] = t.dim();
  r["dim_misc"] = t.dim_misc();
  r["ts"] = out(t.ts());
  r["ys"] = out(t.ys());
  r["yds"] = out(t.yds());
  r["ydds"] = out(t.ydds());
  r["misc"] = out(t.misc());
  if (t.length() > 0) {
    r["initial_y"] = out(t.initial_y());
    r["final_y"] = out(t.final_y());
    r["range"] = out(t.getRangePerDim());
    MatrixXd m;
    t.asMatrix(m);
    r["matrix"] = out(m);
    std::stringstream s;
    s << t;
    r["printed"] = s.str();
  }
  r["duration"] = num(t.duration());
  return r;
}

static json ds_info(const Ds& d)
{
  json r;
  DynamicalSystem* s = d.p;
  r["dim"] = s->dim();
  r["dim_x"] = s->dim_x();
  r["dim_y"] = s->dim_y();
  r["tau"] = num(s->tau());
  r["x_init"] = out(s->x_init());
  VectorXd v, w;
  s->get_x_init(v);
  r["get_x_init"] = out(v);
  s->get_y_init(w);
  r["get_y_init"] = out(w);
  VectorXd a, b;
  if (auto e = dynamic_cast<ExponentialSystem*>(s)) {
    e->get_x_attr(a);
    e->get_y_attr(b);
    r["attr"] = out(a);
    r["get_y_attr"] = out(b);
    r["alpha"] = num(e->alpha());
  } else if (auto g = dynamic_cast<SigmoidSystem*>(s)) {
    r["max_rate"] = num(g->max_rate());
  } else if (auto t = dynamic_cast<TimeSystem*>(s)) {
    r["count_down"] = t->count_down();
  } else if (auto q = dynamic_cast<SpringDamperSystem*>(s)) {
    q->get_y_attr(a);
    r["attr"] = out(a);
    r["damping"] = num(q->damping_coefficient());
    r["spring_constant"] = num(q->spring_constant());
    r["mass"] = num(q->mass());
  } else if (d.dmp) {
    r["dim_dmp"] = d.dmp->dim_dmp();
    r["y_init"] = out(d.dmp->y_init());
  }
  std::stringstream st;
  st << *s;
  r["printed"] = json::parse(st.str());
  return r;
}

static json run_op(const json& o)
{
  const std::string op = o.at("op");
  const std::string id = o.value("id", "");
  json r;

  if (op == "load") {  // any kind of object from a file written by Python
    json j = load_file(o.at("file"));
    const std::string kind = o.at("kind");
    if (kind == "fa")
      g_fa[id] = j.get<FunctionApproximator*>();
    else if (kind == "dmp") {
      Dmp* d = j.get<Dmp*>();
      g_ds[id].p = d;
      g_ds[id].dmp = d;
    } else
      g_ds[id].p = j.get<DynamicalSystem*>();

  } else if (op == "new_exp") {
    g_ds[id].p = new ExponentialSystem(o["tau"], vec(o["x_init"]), vec(o["x_attr"]), o["alpha"]);
  } else if (op == "new_sigmoid") {
    g_ds[id].p = new SigmoidSystem(o["tau"], vec(o["x_init"]), o["max_rate"], o["ratio"]);
  } else if (op == "new_time") {
    g_ds[id].p = new TimeSystem(o["tau"], o["count_down"].get<bool>());
  } else if (op == "new_spring") {
    if (o.contains("spring_constant"))
      g_ds[id].p = new SpringDamperSystem(o["tau"], vec(o["y_init"]), vec(o["y_attr"]), o["damping"],
                                          o["spring_constant"], o["mass"]);
    else
      g_ds[id].p =
          new SpringDamperSystem(o["tau"], vec(o["y_init"]), vec(o["y_attr"]), o["damping"]);
  } else if (op == "new_fa") {
    if (o["kind"] == "rbfn")
      g_fa[id] = new FunctionApproximatorRBFN(mat(o["centers"]), mat(o["widths"]), mat(o["weights"]));
    else
      g_fa[id] = new FunctionApproximatorLWR(mat(o["centers"]), mat(o["widths"]), mat(o["slopes"]),
                                             mat(o["offsets"]), o["asymmetric"].get<bool>());
  } else if (op == "new_dmp") {
    // The Dmp takes over the systems and approximators
    std::vector<FunctionApproximator*> fas;
    for (const auto& f : o["fas"]) {
      if (f.is_null())
        fas.push_back(NULL);
      else {
        fas.push_back(g_fa.at(f));
        g_fa.erase(f.get<std::string>());
      }
    }
    auto take = [&](const char* k) -> DynamicalSystem* {
      if (!o.contains(k) || o[k].is_null()) return NULL;
      DynamicalSystem* p = g_ds.at(o[k]).p;
      g_ds.erase(o[k].get<std::string>());
      return p;
    };
    const int ctor = o["ctor"];
    ExponentialSystem* goal = NULL;
    DynamicalSystem *phase = NULL, *gating = NULL;
    if (ctor == 0 || ctor == 1 || ctor == 4)
      goal = dynamic_cast<ExponentialSystem*>(take("goal"));
    if (ctor == 0 || ctor == 1) {
      phase = take("phase");
      gating = take("gating");
    }
    const std::string scaling = o["scaling"];
    VectorXd amp = vec(o["amplitudes"]);
    Dmp* d = NULL;
    if (ctor == 0)
      d = new Dmp(o["tau"], vec(o["y_init"]), vec(o["y_attr"]), fas, o["alpha"], goal, phase, gating,
                  scaling, amp);
    else if (ctor == 1)
      d = new Dmp(o["n_dims"].get<int>(), fas, o["alpha"], goal, phase, gating, scaling, amp);
    else if (ctor == 2)
      d = new Dmp(o["tau"], vec(o["y_init"]), vec(o["y_attr"]), fas,
                  o["dmp_type"].get<std::string>(), scaling, amp);
    else if (ctor == 3)
      d = new Dmp(o["n_dims"].get<int>(), fas, o["dmp_type"].get<std::string>(), scaling, amp);
    else
      d = new Dmp(o["tau"], vec(o["y_init"]), vec(o["y_attr"]), o["alpha"].get<double>(), goal);
    g_ds[id].p = d;
    g_ds[id].dmp = d;

  } else if (op == "delete") {
    if (g_ds.count(id)) {
      delete g_ds[id].p;  // through the base class
      g_ds.erase(id);
    }
    if (g_fa.count(id)) {
      delete g_fa[id];
      g_fa.erase(id);
    }
    g_traj.erase(id);

  } else if (op == "info") {
    r = ds_info(g_ds.at(id));

    // ---------------------------------------------------------------- setters
  } else if (op == "set_tau") {
    g_ds.at(id).p->set_tau(o["value"]);
  } else if (op == "set_x_init") {
    g_ds.at(id).p->set_x_init(vec(o["value"]));
  } else if (op == "set_y_init") {
    Ds& d = g_ds.at(id);
    VectorXd v = vec(o["value"]);
    if (d.dmp && !o.value("base", false))
      d.dmp->set_y_init(v);
    else
      d.p->set_y_init(v);
  } else if (op == "set_attr") {
    Ds& d = g_ds.at(id);
    VectorXd v = vec(o["value"]);
    if (d.dmp)
      d.dmp->set_y_attr(v);
    else if (auto e = dynamic_cast<ExponentialSystem*>(d.p)) {
      if (o.value("as_x", false))
        e->set_x_attr(v);
      else
        e->set_y_attr(v);
    } else if (auto q = dynamic_cast<SpringDamperSystem*>(d.p))
      q->set_y_attr(v);
  } else if (op == "set_param") {
    Ds& d = g_ds.at(id);
    const std::string n = o["name"];
    const double v = o["value"];
    if (n == "max_rate")
      dynamic_cast<SigmoidSystem*>(d.p)->set_max_rate(v);
    else if (d.dmp && n == "damping")
      d.dmp->set_damping_coefficient(v);
    else if (d.dmp && n == "spring_constant")
      d.dmp->set_spring_constant(v);
    else if (auto q = dynamic_cast<SpringDamperSystem*>(d.p)) {
      if (n == "damping") q->set_damping_coefficient(v);
      if (n == "spring_constant") q->set_spring_constant(v);
      if (n == "mass") q->set_mass(v);
    }

    // ---------------------------------------------------------------- queries of systems
  } else if (op == "ana") {
    DynamicalSystem* s = g_ds.at(id).p;
    VectorXd ts = vec(o["ts"]);
    MatrixXd xs, xds;
    const std::string pass = o.value("pass", "empty");
    if (pass == "transposed") {
      xs = MatrixXd::Constant(s->dim(), ts.size(), 7.5);
      xds = MatrixXd::Constant(s->dim(), ts.size(), 7.5);
    } else if (pass == "sized") {
      xs = MatrixXd::Constant(ts.size(), s->dim(), 7.5);
      xds = MatrixXd::Constant(ts.size(), s->dim(), 7.5);
    } else if (pass == "other") {
      xs = MatrixXd::Constant(ts.size() + 3, s->dim() + 2, 7.5);
      xds = MatrixXd::Constant(2, 2, 7.5);
    }
    s->analyticalSolution(ts, xs, xds);
    r["xs"] = out(xs);
    r["xds"] = out(xds);
  } else if (op == "dmp_ana") {
    Dmp* d = g_ds.at(id).dmp;
    VectorXd ts = vec(o["ts"]);
    MatrixXd xs, xds, f, fa;
    const int n = o.value("n_out", 4);
    if (o.value("pass", "") == "transposed") {
      xs = MatrixXd::Constant(d->dim(), ts.size(), 7.5);
      xds = xs;
    }
    if (n == 4)
      d->analyticalSolution(ts, xs, xds, f, fa);
    else if (n == 3)
      d->analyticalSolution(ts, xs, xds, f);
    else
      d->analyticalSolution(ts, xs, xds);
    r["xs"] = out(xs);
    r["xds"] = out(xds);
    if (n >= 3) r["forcing"] = out(f);
    if (n >= 4) r["fa"] = out(fa);
    if (o.value("pass", "") != "transposed") {
      MatrixXd y, yd, ydd;
      d->statesAsTrajectory(xs, xds, y, yd, ydd);
      r["y"] = out(y);
      r["yd"] = out(yd);
      r["ydd"] = out(ydd);
      Trajectory t1, t2, t3;
      d->statesAsTrajectory(ts, xs, xds, t1);
      r["traj"] = traj_out(t1);
      d->analyticalSolution(ts, t2);
      r["traj2"] = traj_out(t2);
      MatrixXd f3;
      d->analyticalSolution(ts, t3, f3);
      r["traj3"] = traj_out(t3);
      r["forcing3"] = out(f3);
      if (o.contains("save_as")) g_traj[o["save_as"]] = t1;
    }
  } else if (op == "diff") {
    DynamicalSystem* s = g_ds.at(id).p;
    MatrixXd x = mat(o["x"]);
    MatrixXd xd(x.rows(), s->dim());
    rt_calls = rt_bad = 0;
    rt_first = -1;
    VectorXd xi(s->dim()), xdi(s->dim());
    for (int i = 0; i < x.rows(); i++) {
      xi = x.row(i);
      xdi.setConstant(7.5);
      RT(s->differentialEquation(xi, xdi));
      xd.row(i) = xdi;
    }
    r["xd"] = out(xd);
    r["rt"] = {rt_calls, rt_bad, rt_first};
  } else if (op == "start") {
    DynamicalSystem* s = g_ds.at(id).p;
    VectorXd x = VectorXd::Constant(s->dim(), 7.5), xd = VectorXd::Constant(s->dim(), 7.5);
    if (o.contains("y_init"))
      s->integrateStart(vec(o["y_init"]), x, xd);
    else
      s->integrateStart(x, xd);
    r["x"] = out(x);
    r["xd"] = out(xd);
  } else if (op == "roll") {
    // step by step, from the start or from a given state
    DynamicalSystem* s = g_ds.at(id).p;
    Dmp* dmp = g_ds.at(id).dmp;
    VectorXd dts = vec(o["dts"]);
    const std::string method = o["method"];
    const int D = s->dim();
    MatrixXd xs(dts.size() + 1, D), xds(dts.size() + 1, D);
    VectorXd x(D), xd(D), x_new(D);
    if (o.contains("x0")) {
      x = vec(o["x0"]);
      s->differentialEquation(x, xd);
    } else
      s->integrateStart(x, xd);
    xs.row(0) = x;
    xds.row(0) = xd;
    const bool inplace = o.value("inplace", false);
    const std::vector<int> ops = {};
    rt_calls = rt_bad = 0;
    rt_first = -1;
    for (int i = 0; i < dts.size(); i++) {
      const double dt = dts[i];
      VectorXd& target = inplace ? x : x_new;
      if (method == "euler")
        RT(s->integrateStepEuler(dt, x, target, xd));
      else if (method == "rk")
        RT(s->integrateStepRungeKutta(dt, x, target, xd));
      else
        RT(s->integrateStep(dt, x, target, xd));
      if (!inplace) x = x_new;
      xs.row(i + 1) = x;
      xds.row(i + 1) = xd;
    }
    r["xs"] = out(xs);
    r["xds"] = out(xds);
    r["rt"] = {rt_calls, rt_bad, rt_first};
    if (dmp) {
      MatrixXd ys(dts.size() + 1, 3 * dmp->dim_y());
      for (int i = 0; i <= dts.size(); i++) {
        VectorXd y, yd, ydd;
        dmp->stateAsPosVelAcc(xs.row(i), xds.row(i), y, yd, ydd);
        ys.row(i) << y.transpose(), yd.transpose(), ydd.transpose();
      }
      r["pva"] = out(ys);
    }

    // ---------------------------------------------------------------- approximators
  } else if (op == "predict") {
    FunctionApproximator* f = g_fa.at(id);
    MatrixXd inputs = mat(o["inputs"]), outputs;
    if (o.contains("out_rows")) outputs = MatrixXd::Constant(o["out_rows"], 1, 7.5);
    f->predict(inputs, outputs);
    r["outputs"] = out(outputs);
    MatrixXd rt(inputs.rows(), 1);
    VectorXd one(1);
    RowVectorXd row(inputs.cols());
    rt_calls = rt_bad = 0;
    rt_first = -1;
    for (int i = 0; i < inputs.rows(); i++) {
      row = inputs.row(i);
      one.setConstant(7.5);
      RT(f->predictRealTime(row, one));
      rt(i, 0) = one(0);
    }
    r["realtime"] = out(rt);
    r["rt_size"] = one.size();
    r["rt"] = {rt_calls, rt_bad, rt_first};
  } else if (op == "fa_of") {  // the approximator inside a Dmp
    Dmp* d = g_ds.at(id).dmp;
    FunctionApproximator* f = d->function_approximator(o["dim"]);
    MatrixXd outputs;
    f->predict(mat(o["inputs"]), outputs);
    r["outputs"] = out(outputs);
  } else if (op == "print_fa") {
    std::stringstream st;
    st << *g_fa.at(id);
    r["printed"] = json::parse(st.str());
  } else if (op == "gaussian") {
    MatrixXd act;
    if (o.contains("covars")) {
      std::vector<VectorXd> mus;
      std::vector<MatrixXd> covars;
      for (const auto& m : o["mus"]) mus.push_back(vec(m));
      for (const auto& c : o["covars"]) covars.push_back(mat(c));
      std::vector<double> priors = o["priors"].get<std::vector<double>>();
      BasisFunction::Gaussian::activations(mus, covars, priors, mat(o["inputs"]), act,
                                           o["normalized"].get<bool>());
    } else
      BasisFunction::Gaussian::activations(mat(o["mus"]), mat(o["sigmas"]), mat(o["inputs"]), act,
                                           o["normalized"].get<bool>(), o["asymmetric"].get<bool>());
    r["act"] = out(act);
  } else if (op == "cosine") {
    MatrixXd act, act2;
    MatrixXd freqs = mat(o["freqs"]);
    VectorXd phases = vec(o["phases"]);
    BasisFunction::Cosine::activations(freqs, phases, mat(o["inputs"]), act);
    std::vector<MatrixXd> fv;
    std::vector<VectorXd> pv;
    for (int i = 0; i < freqs.rows(); i++) {
      fv.push_back(freqs.row(i));
      pv.push_back(phases.segment(i, 1));
    }
    BasisFunction::Cosine::activations(fv, pv, mat(o["inputs"]), act2);
    r["act"] = out(act);
    r["act2"] = out(act2);

    // ---------------------------------------------------------------- trajectories and files
  } else if (op == "traj_new") {
    if (o.contains("misc"))
      g_traj[id] =
          Trajectory(vec(o["ts"]), mat(o["ys"]), mat(o["yds"]), mat(o["ydds"]), mat(o["misc"]));
    else
      g_traj[id] = Trajectory(vec(o["ts"]), mat(o["ys"]), mat(o["yds"]), mat(o["ydds"]));
  } else if (op == "traj_empty") {
    g_traj[id] = Trajectory();
  } else if (op == "traj_minjerk") {
    g_traj[id] = Trajectory::generateMinJerkTrajectory(vec(o["ts"]), vec(o["from"]), vec(o["to"]));
  } else if (op == "traj_poly") {
    g_traj[id] = Trajectory::generatePolynomialTrajectory(
        vec(o["ts"]), vec(o["y_from"]), vec(o["yd_from"]), vec(o["ydd_from"]), vec(o["y_to"]),
        vec(o["yd_to"]), vec(o["ydd_to"]));
  } else if (op == "traj_via") {
    g_traj[id] = Trajectory::generatePolynomialTrajectoryThroughViapoint(
        vec(o["ts"]), vec(o["from"]), vec(o["via"]), o["time"], vec(o["to"]));
  } else if (op == "traj_read") {
    g_traj[id] = Trajectory::readFromFile(o["file"], o.value("n_misc", 0));
  } else if (op == "traj_misc") {
    g_traj.at(id).set_misc(mat(o["misc"]));
  } else if (op == "traj_append") {
    g_traj.at(id).append(g_traj.at(o["other"]));
  } else if (op == "traj_copy") {
    g_traj[o["other"]] = g_traj.at(id);
  } else if (op == "traj_info") {
    r = traj_out(g_traj.at(id));
  } else if (op == "traj_save") {
    if (o.contains("dir"))
      r["saved"] = g_traj.at(id).saveToFile(o["dir"], o["file"].get<std::string>(),
                                            o["overwrite"].get<bool>());
    else
      r["saved"] =
          g_traj.at(id).saveToFile(o["file"].get<std::string>(), o["overwrite"].get<bool>());
  } else if (op == "mat_save") {
    const std::string type = o.value("type", "double");
    MatrixXd m = mat(o["m"]);
    Eigen::MatrixXi mi = m.cast<int>();
    VectorXd mv = m.col(0);
    const bool ow = o["overwrite"];
    const std::string file = o["file"];
    if (o.contains("dir"))
      r["saved"] = type == "int" ? saveMatrix(o["dir"], file, mi, ow)
                                 : type == "vector" ? saveMatrix(o["dir"], file, mv, ow)
                                                    : saveMatrix(o["dir"], file, m, ow);
    else
      r["saved"] = type == "int" ? saveMatrix(file, mi, ow)
                                 : type == "vector" ? saveMatrix(file, mv, ow)
                                                    : saveMatrix(file, m, ow);
  } else if (op == "mat_load") {
    const std::string type = o.value("type", "double");
    if (type == "int") {
      Eigen::MatrixXi m;
      r["loaded"] = loadMatrix(o["file"].get<std::string>(), m);
      r["m"] = out(m.cast<double>());
    } else {
      MatrixXd m;
      r["loaded"] = loadMatrix(o["file"].get<std::string>(), m);
      r["m"] = out(m);
    }
  } else if (op == "hook_selftest") {
    // the hooks see an allocation, and a release, inside a real-time call
    rt_calls = rt_bad = 0;
    rt_first = -1;
    std::unique_ptr<std::vector<double>> p;
    RT(p.reset(new std::vector<double>(o["n"].get<int>())));
    RT(p.reset());
    RT(VectorXd v(o["n"].get<int>()); v.setZero(); r["sum"] = v.sum());
    r["rt"] = {rt_calls, rt_bad, rt_first};
  } else if (op == "json_matrix") {
    MatrixXd m;
    Eigen::from_json(o["value"], m);
    r["m"] = out(m);
  } else {
    std::cerr << "unknown op " << op << std::endl;
    std::exit(3);
  }
  return r;
}

int main(int n_args, char** args)
{
  if (n_args < 3) return 3;
  json job = load_file(args[1]);
  json results = json::array();
  std::ofstream o(args[2]);
  o << "[";
  bool first = true;
  for (const auto& op : job) {
    // what was reached is on disk when an operation ends the process
    std::ofstream(std::string(args[2]) + ".at") << op.at("op").get<std::string>();
    json r;
    try {
      r = run_op(op);
    } catch (const std::exception& e) {
      r["exception"] = e.what();
    }
    o << (first ? "" : ",") << "\n" << r.dump();
    first = false;
    o.flush();
  }
  o << "\n]\n";
  o.close();
  for (auto& d : g_ds) delete d.second.p;
  g_ds.clear();
  for (auto& f : g_fa) delete f.second;
  g_fa.clear();
  return 0;
}
