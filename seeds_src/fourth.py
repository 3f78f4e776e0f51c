import importlib.util, os
sp = importlib.util.spec_from_file_location('first', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'first.py'))
first = importlib.util.module_from_spec(sp)
sp.loader.exec_module(first)
HEAD = first.HEAD
S = [
 dict(id='c13-inputs-wiped', property='C13', edits=[('solver/simulator_base.cpp', '''                    _inputs_cb(_model, t1);
                }
''', '''                    _inputs_cb(_model, t1);
                }
                for (auto& sig : value_signals_)
                {
                    sig->clear();
                }
''')],
      needs='a run with sub-steps of a model in which something that runs before the evaluation (its input hook, a pre-step) reads an input',
      breaks='the inputs the callback has supplied are cleared before the states are published',
      demo=HEAD + r'''
#include "src/block/integrator.hpp"
#include "src/solver/euler.hpp"
struct M : Submodel
{
    ScalarSignal u{"u"};
    bool good{true};
    int seen{0};
    M() : Submodel(nullptr, "m") {}
    void pre_step(double t) override
    {
        seen++;
        good = good && u->assigned() && u->get_value() == 1 + t;
        Submodel::pre_step(t);
    }
};
int main()
{
    M m;
    ScalarSignal x("x"), dx("dx");
    Gain k(1.0, &m, "k");
    Integrator i(0.0, &m, "i");
    k.connect({m.u}, {dx});
    i.connect({dx}, {x});
    Euler e;
    Simulator sim(m, [&](Block&, double t) { m.u = 1 + t; }, &e);
    sim.init(0.0);
    MUST(m.good && m.seen > 0);
    m.seen = 0;
    sim.run(1.0, 0.01, 0.25);
    MUST(m.good && m.seen > 0);
    return 0;
}
'''),
 dict(id='c16-signed-error', property='C16', edits=[('solver/rkf45.cpp', '(v1 - _ZT).cwiseAbs().maxCoeff()', '(v1 - _ZT).maxCoeff()')],
      needs='a system in which the lower order result is below the higher order one', breaks='the step size control takes a large error for none when it is negative',
      demo=HEAD + r'''
#include "src/solver/rkf45.hpp"
static double next(double x0, double h)
{
    Rkf45 s;
    Array d(1), v0(1), v1(1);
    v0 << x0;
    double nh = 0;
    s.step(
        [&](double, const Array& v) -> const Array&
        {
            d = 3.0 * v;
            return d;
        },
        0.0, v0, h, v1, nh);
    return nh;
}
int main()
{
    for (double h : {0.01, 0.1, 0.5, 1.0, 2.0})
        MUST(next(1000.0, h) == next(-1000.0, h)); // the same system with the opposite sign
    return 0;
}
'''),
 dict(id='c23-single-time', property='C23', edits=[('block/extra/source.hpp', 'std::function<T(double)>', 'std::function<T(float)>')],
      needs='times that single precision does not hold', breaks='a source hands its function a rounded time',
      demo=HEAD + r'''
int main()
{
    ScalarSignal x("x");
    Submodel m(nullptr, "m");
    Source s([](double t) { return t; }, &m, "s");
    s.connect({}, {x});
    Simulator sim(m);
    sim.init(0.1);
    MUST(x->get_value() == 0.1);
    sim.run(1e5 + 1e-4);
    MUST(x->get_value() == 1e5 + 1e-4);
    return 0;
}
'''),
]
