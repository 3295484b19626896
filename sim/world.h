// A simulated world: real library objects driven by a plan of operations, with
// every user-supplied callback, allocation, clock read and fault under control.
#pragma once
#include "core.h"
#include "ref.h"
#include "scs.h"

enum SysKind { OPT, GEN };
enum OdeKind { EULER, NSV, RK4, ODEKINDS };
enum SleKind { GE, CG, GS, SLEKINDS };
enum HookKind { H_FRC, H_CON, H_SLE, H_ODE_START, H_ODE_STEP, H_ODE_SOLVE, H_ODE_END, HOOKKINDS };
enum FaultKind { FT_NONE, FT_ALLOC, FT_ALLOC_BURST, FT_HOOK, FT_EDITALLOC, FAULTKINDS };

struct World;

struct BodyS { int id; atg_scs::RigidBody *o; bool in; };
struct ConS { int id; ConDesc d; int b[2]; atg_scs::Constraint *o; bool in; };
struct FrcS { int id; FrcDesc d; int b[2]; atg_scs::ForceGenerator *o; bool in; };

struct Cfg {
    int sys = OPT, ode = EULER, sle = GE;
    double bias = 0.5, tolA = 1e-9, tolB = 1e-11;
    int maxIter = 100000;
};

// State seen by the recorder at one force evaluation (by system index).
struct Stage { int n; double dt; std::vector<double> q, v, a, m, f; };
struct BodyVals { double q[3], v[3], m, I; int index; };
struct ConVals { double F[3][2][3]; int index; const void *b[2]; };
struct Snap {
    std::map<int, BodyVals> bodies;
    std::map<int, ConVals> cons;
    std::map<int, int> frcs;
    std::vector<const void *> sysBodies;
    int nb, nc, nf, full;
    double t;
};
std::string diffSnap(const Snap &a, const Snap &b, bool withTime = true);

struct StepObs {
    double dt = 0; int steps = 1;
    bool completed = false;
    int threw = 0;                      // 1 bad_alloc, 2 SimFault, 3 other
    bool faultFired = false;
    std::vector<Stage> stages;          // when a recorder is installed
    std::map<int, int> frcCalls, conCalls;
    int odeCalls[4] = {0, 0, 0, 0}, sleCalls = 0;
    Snap pre, post;
};

struct Observer {
    virtual ~Observer() {}
    virtual void afterEdit(World &, const Op &) {}
    virtual void beforeStep(World &, StepObs &) {}
    virtual void afterStep(World &, StepObs &) {}
    virtual void atEnd(World &) {}
};

struct WorldOptions {
    bool ignoreRestart = false;         // twin that never restarts
    bool noSnap = false;                // skip snapshots (speed)
    int maxCon = 24;                    // constraint rows kept by the conditioning gate
    double maxGap = 3;                  // and the largest position error of a row
    double condLimit[3] = {1e5, 2e3, 300};
    double vmax = 300;
    bool heal = true;                   // gate ill-posed steps
};

struct World {
    Cfg cfg;
    WorldOptions opt;
    Observer *obs = nullptr;
    std::map<int, BodyS> bodies;
    std::map<int, ConS> cons;
    std::map<int, FrcS> frcs;
    std::vector<int> conOrder;          // installation order (for the gate: newest goes first)
    atg_scs::RigidBodySystem *sys = nullptr;
    atg_scs::SleSolver *sle = nullptr;
    atg_scs::OdeSolver *ode = nullptr;
    bool ownSle = true, ownOde = true;
    long editFailAt = -1, editFailBurst = 0;    // the next addition's n-th allocation fails (once; it is then repeated)
    StepObs *cur = nullptr;
    bool recorderOn = false;
    long faultHook = -1;                // countdown to a throwing callback
    bool alive = true;
    int stepsDone = 0;
    double simTime = 0;
    LD startLam = 0;                    // how far out an iterative solver may start: the largest multiplier of the last step
    int64_t hookNs[HOOKKINDS] = {0};    // simulated time spent in callbacks of the current step
    atg_scs::SystemState *state = nullptr;      // what the running callback of a force or constraint was handed
    bool asking = false;                // a check asks a constraint for further evaluations
    std::function<void(int, const atg_scs::Constraint &, const atg_scs::Constraint::Output &)> onOutput;   // what a constraint handed over
    std::function<void(atg_scs::SparseMatrix<3> &, atg_scs::Matrix &, atg_scs::Matrix &, atg_scs::Matrix *)> onSolve;   // what the linear solver is handed
    std::function<void(atg_scs::SparseMatrix<3> &, atg_scs::Matrix &)> onSolved;    // ... and what it answered
    std::function<void(HookKind, int, int)> onHook;     // kind, object id, phase 0 before / 1 after

    World() {}
    ~World();
    World(const World &) = delete;
    void configure(const Op &o);        // CFG
    void exec(const Op &o);
    void run(const Plan &p) { for (size_t i = 0; i < p.ops.size(); ++i) { g_opIndex = (int)i; exec(p.ops[i]); } g_opIndex = (int)p.ops.size(); if (obs) obs->atEnd(*this); }
    void destroyAll(int order = 0);

    // building blocks
    void makeSystem();
    void dropSystem();
    void restart();
    BodyS *body(int id) { auto i = bodies.find(id); return i == bodies.end() ? nullptr : &i->second; }
    void addBody(BodyS &b);
    void remBody(BodyS &b);             // removes dependents that cannot live without it
    void addCon(ConS &c);
    void remCon(ConS &c);
    void addFrc(FrcS &f);
    void remFrc(FrcS &f);
    bool conAllowed(const ConS &c);
    bool frcAllowed(const FrcS &f);
    void applyCon(ConS &c, const Op &o, bool fresh);
    void applyFrc(FrcS &f, const Op &o, bool fresh);
    void pushConParams(ConS &c, bool fresh);
    void pushFrcParams(FrcS &f, bool fresh);
    bool gate(const Op &o);
    void step(const Op &o);
    bool heal(double dt, int steps);
    bool dryRun(double dt, int steps);
    bool refFrame(RState &s, LD h, int steps);     // advances s by the reference's own frame
    void hook(HookKind k, int id, int phase);
    Snap snap();
    double elapsed() const;
    int rowsInstalled() const;
    std::vector<ConS *> sysCons();      // in the system's own order
    std::vector<BodyS *> sysBodies();
    std::vector<FrcS *> sysFrcs();

    // reference evaluation
    RState refState();                  // from the bodies
    RState refState(const Stage &s);
    void refRows(const RState &s, Problem &p);
    void refForces(const RState &s, std::vector<LD> &F, std::vector<LD> &Fa);
    int stageCount() const { return cfg.sys == GEN && cfg.ode == RK4 ? 4 : 1; }
    int solverTakesLimits() const { return cfg.sys == OPT && cfg.sle == GS; }
};

// Two worlds whose systems use the same solver and (if both are generic) the same integrator, one after the
// other. Operations after "WORLD k" go to world k; without any WORLD operation this is a single world.
struct Worlds {
    World a, b;
    int at = 0;
    bool shared = false;
    atg_scs::SleSolver *sle = nullptr;
    atg_scs::OdeSolver *ode = nullptr;
    void run(const Plan &p);
    void exec(const Op &o);
    void destroyAll(int order = 0);
    ~Worlds() { if (!std::uncaught_exceptions()) destroyAll(); }
};
struct Knobs;
void genShared(Rng &r, Plan &p, const Knobs &k);

atg_scs::Constraint *makeCon(World *w, int id, const ConDesc &d);
atg_scs::ForceGenerator *makeFrc(World *w, int id, const FrcDesc &d);
atg_scs::OdeSolver *makeOde(World *w, int kind);
void initSle(World &w);

// One evaluation of the reference model: accelerations (generic) or the velocity update (velocity-bias).
struct RefEval {
    Problem p;
    std::vector<LD> F, Fa, lam, rhs, vNew, a;   // lam: impulse (OPT) or force (GEN)
    std::vector<LD> dlam, dv;                   // error bounds: of lam, and of vNew (OPT) or a (GEN)
    std::vector<int> clamped;
    bool ok = false;
};
void refEval(World &w, const RState &s, double h, RefEval &e);

// Full refinement check of one completed step against the reference; returns
// "" or a description of the first mismatch. what: 1 motion, 2 reported forces.
std::string checkRefinement(World &w, const StepObs &o, int what, double *worst = nullptr);

// ------------------------------------------------------------------ plan generation
struct Knobs {
    int minBodies = 1, maxBodies = 8;
    int sysMask = 3, odeMask = 7, sleMask = 7;  // bits
    int nSteps = 10;
    double pEdit = 0.5, pRestart = 0.05, pFault = 0.0, pKick = 0.3, pInit = 0.0, pReset = 0.02;
    double pRecorder = 0.8, pOutside = 0.15, pBulk = 0.0, pLimits = 0.5;
    std::vector<int> conKinds = {LINK, FIXPOS, FIXROT, LINE, ROLL, CLUTCH, GEAR, CROT, FRIC, WELD, LIN};
    std::vector<int> frcKinds = {GRAV, STATIC, SPRING, MOTOR, DRAG, FIELD, PAIR};
    double noise = 0.03;
    double dtLo = 1e-3, dtHi = 0.04;
    int maxSub = 4;
    double maxCons = 8, maxFrcs = 5;
    bool motorDamping = true;
    double ksMax = 400, kdMax = 20;
    double tolGS = 1e-9, tolCG = 1e-11;
    double biasLo = 0.05, biasHi = 1.0;
    bool far = false;               // bodies have turned many times
    double massLo = 0.2, massHi = 8;
    bool regimes = true;                // now and then: tiny or large steps, other units, many turns, long histories ...
    bool manyRows = true;
    double pGap = 0.02;                 // joints pulled far apart
    double pOneSided = 0.0, pZeroLimit = 0.1;
    double pNoLimit = 0.12, limitMax = 200;     // per side of a torque-limited coupling
};
void genWorld(Rng &r, Plan &p, const Knobs &k);
