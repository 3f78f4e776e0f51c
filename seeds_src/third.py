import importlib.util, os
sp = importlib.util.spec_from_file_location('first', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'first.py'))
first = importlib.util.module_from_spec(sp)
sp.loader.exec_module(first)
HEAD = first.HEAD
S = [
 dict(id='c05-prefix-lookup', property='C05', edits=[('signal/bus.hpp', '''[label_to_find](const auto& p) -> bool { return p.first == label_to_find; });
        pooya_verify''', '''[label_to_find](const auto& p) -> bool { return p.first.compare(0, label_to_find.size(), label_to_find) == 0; });
        pooya_verify''')],
      needs='a label that begins with the label looked up, earlier in the bus', breaks='the lookup finds an entry whose label only begins with the one asked for',
      demo=HEAD + r'''
int main()
{
    ScalarSignal x("x"), y("y");
    Bus b({{"pos_x", x}, {"pos", y}});
    MUST(&b.at("pos").impl() == &y.impl());
    Bus c({{"pos_x", x}});
    MUST(throws([&] { c.at("pos"); }));
    return 0;
}
'''),
 dict(id='c09-read-only-depth', property='C09', edits=[('block/submodel.hpp', 'uint32_t max_level = std::numeric_limits<uint32_t>::max()) const override;', 'uint32_t max_level = 1) const override;')],
      needs='a read-only visit of a model with nested submodels that names no maximum level', breaks='blocks inside nested submodels are not visited',
      demo=HEAD + r'''
int main()
{
    Submodel m(nullptr, "m"), n(&m, "n");
    Gain g(1.0, &n, "g");
    int a = 0, b = 0;
    m.visit([&](Block&, uint32_t) { a++; return true; }, 0);
    m.const_visit([&](const Block&, uint32_t) { b++; return true; }, 0);
    MUST(a == 3);
    MUST(b == a);
    return 0;
}
'''),
 dict(id='c10-same-name', property='C10', edits=[('block/submodel.cpp', 'if (std::find(_blocks.begin(), _blocks.end(), &block) == _blocks.end()) _blocks', '''const auto& label = block.name().str();
    if (std::none_of(_blocks.begin(), _blocks.end(),
                     [&](const Block* b) { return b == &block || (!label.empty() && b->name().str() == label); }))
        _blocks''')],
      needs='two blocks of the same name in one submodel', breaks='the second one is not listed by its parent and never runs',
      demo=HEAD + r'''
int main()
{
    Submodel m(nullptr, "m");
    ScalarSignal a("a"), b("b"), c("c");
    Source s([](double t) { return t; }, &m, "s");
    Gain g1(2.0, &m, "gain"), g2(3.0, &m, "gain");
    s.connect({}, {a});
    g1.connect({a}, {b});
    g2.connect({b}, {c});
    Simulator sim(m);
    sim.init(1.0);
    MUST(c->get_value() == 6.0);
    return 0;
}
'''),
 dict(id='c11-sweep-limit', property='C11', edits=[('solver/simulator.cpp', '''        while (_model.process(t))
        {
        }''', '''        // no sensible model needs more sweeps
        for (int sweep = 0; sweep < 64 && _model.process(t); sweep++)
        {
        }''')],
      needs='a chain of more than 64 blocks added in the reverse of the order they run in', breaks='the evaluation stops although blocks could still run',
      demo=HEAD + r'''
#include <memory>
#include <vector>
int main()
{
    const int n = 100;
    Submodel m(nullptr, "m");
    std::vector<std::unique_ptr<ScalarSignal>> s;
    for (int k = 0; k <= n; k++) s.push_back(std::make_unique<ScalarSignal>("s"));
    std::vector<std::unique_ptr<Gain>> g;
    for (int k = n; k > 0; k--)
    {
        g.push_back(std::make_unique<Gain>(1.0, &m, "g" + std::to_string(k)));
        g.back()->connect({*s[k - 1]}, {*s[k]});
    }
    Source src([](double t) { return t; }, &m, "src");
    src.connect({}, {*s[0]});
    Simulator sim(m, nullptr, nullptr, false);
    sim.init(5.0);
    MUST((*s[n])->assigned());
    MUST((*s[n])->get_value() == 5.0);
    return 0;
}
'''),
 dict(id='c12-round-limit', property='C12', edits=[('solver/fast_simulator.cpp', '    for (;;)\n', '    for (int round = 0; round < 32; round++)\n')],
      needs='a model in which a block has more than 32 blocks before it', breaks='the model is refused although it has a working order',
      demo=HEAD + r'''
#include "src/solver/fast_simulator.hpp"
#include <memory>
#include <vector>
int main()
{
    const int n = 60;
    Submodel m(nullptr, "m");
    std::vector<std::unique_ptr<ScalarSignal>> s;
    for (int k = 0; k <= n; k++) s.push_back(std::make_unique<ScalarSignal>("s"));
    std::vector<std::unique_ptr<Gain>> g;
    for (int k = n; k > 0; k--)
    {
        g.push_back(std::make_unique<Gain>(1.0, &m, "g" + std::to_string(k)));
        g.back()->connect({*s[k - 1]}, {*s[k]});
    }
    Source src([](double t) { return t; }, &m, "src");
    src.connect({}, {*s[0]});
    FastSimulator sim(m);
    MUST(!throws([&] { sim.init(5.0); }));
    MUST((*s[n])->get_value() == 5.0);
    return 0;
}
'''),
 dict(id='c14-visit-depth', property='C14', edits=[('solver/simulator_base.cpp', '''            return true;
        },
        0);''', '''            return true;
        },
        0, 4);''')],
      needs='a block more than four submodels deep', breaks='its signals are unknown to the simulator: they are never cleared',
      demo=HEAD + r'''
int main()
{
    Submodel m(nullptr, "m"), a(&m, "a"), b(&a, "b"), c(&b, "c"), d(&c, "d"), e(&d, "e");
    ScalarSignal x("x");
    Source s([](double t) { return t; }, &e, "s");
    s.connect({}, {x});
    Simulator sim(m);
    sim.init(0.0);
    MUST(!throws([&] { sim.run(1.0); }));
    MUST(x->get_value() == 1.0);
    return 0;
}
'''),
 dict(id='c17-tiny-run', property='C17', edits=[('solver/simulator_base.cpp', '            while (t1 < t)', '            while (t - t1 > 1e-6)')],
      needs='a run that ends within a millionth of where it starts', breaks='no sub-step is taken: the states stay where they were although the time moves on',
      demo=HEAD + r'''
#include "src/block/integrator.hpp"
#include "src/solver/euler.hpp"
int main()
{
    Submodel m(nullptr, "m");
    ScalarSignal x("x"), dx("dx");
    Const k(1e6, &m, "k");
    Integrator i(0.0, &m, "i");
    k.connect({}, {dx});
    i.connect({dx}, {x});
    Euler e;
    Simulator sim(m, nullptr, &e);
    sim.init(0.0);
    sim.run(5e-7, 1e-9, 1e-7);
    MUST(x->get_value() > 0.4 && x->get_value() < 0.6);
    return 0;
}
'''),
 dict(id='c13-hook-late', property='C13', edits=[('solver/simulator_base.cpp', '                _model.input_cb(t1);', '                _model.input_cb(_t_prev);')],
      needs='a run of several sub-steps and a model whose input hook depends on the time', breaks='the hook gets the time at which the run started, not the one at which the states are published',
      demo=HEAD + r'''
#include "src/block/integrator.hpp"
#include "src/solver/euler.hpp"
struct M : Submodel
{
    double hook{-1};
    bool good{true};
    M() : Submodel(nullptr, "m") {}
    void input_cb(double t) override { hook = t; }
    void pre_step(double t) override
    {
        good = good && hook == t;
        Submodel::pre_step(t);
    }
};
int main()
{
    M m;
    ScalarSignal x("x"), dx("dx");
    Const k(1.0, &m, "k");
    Integrator i(0.0, &m, "i");
    k.connect({}, {dx});
    i.connect({dx}, {x});
    Euler e;
    Simulator sim(m, nullptr, &e);
    sim.init(0.0);
    sim.run(1.0, 0.01, 0.125);
    MUST(m.good);
    return 0;
}
'''),
 dict(id='c18-trial-time', property='C18', edits=[('solver/simulator_base.cpp', 'auto minor_solver_step_cb = [&](double t, const Array& state_variables) -> const Array&', 'auto minor_solver_step_cb = [&](float t, const Array& state_variables) -> const Array&')],
      needs='a derivative that depends strongly on the time', breaks='the stepper\'s trial evaluations are made at rounded times',
      demo=HEAD + r'''
#include "src/block/integrator.hpp"
#include "src/solver/euler.hpp"
int main()
{
    Submodel m(nullptr, "m");
    ScalarSignal x("x"), dx("dx");
    Source k([](double t) { return t; }, &m, "k");
    Integrator i(0.0, &m, "i");
    k.connect({}, {dx});
    i.connect({dx}, {x});
    Euler e;
    Simulator sim(m, nullptr, &e);
    const double t0 = 16777217.25; // no float
    sim.init(t0);
    sim.run(t0 + 0.5, 0.01, 0.5);
    MUST(x->get_value() == 0.5 * t0);
    return 0;
}
'''),
 dict(id='c24-prune-equal', property='C24', edits=[('block/extra/delay.hpp', '                if (v >= t1)', '                if (v > t1)')],
      needs='a delay as long as the lifespan, evaluated at the time of the last commit, with a sample exactly that long ago',
      breaks='the sample before is dropped, the delayed time counts as the first recorded time and the initial input comes out again',
      demo=HEAD + r'''
#include "src/block/extra/delay.hpp"
int main()
{
    Submodel m(nullptr, "m");
    ScalarSignal x("x"), d("d"), i("i"), y("y");
    Delay b(2.0, &m, "b");
    b.connect(Bus({{"in", x}, {"delay", d}, {"initial", i}}), {y});
    auto step = [&](double t)
    {
        for (auto* s : {&x, &d, &i, &y}) (*s)->clear();
        x = 10 * t;
        d = 2.0;
        i = -1.0;
        b.activation_function(t);
        return y->get_value();
    };
    for (double t : {0., 1., 2., 3., 4.})
    {
        step(t);
        b.post_step(t);
    }
    // a trial evaluation at the time just committed
    MUST(step(4.) == 20.0);
    return 0;
}
'''),
 dict(id='c25-excluded-prefix', property='C25', edits=[('block/extra/bus_block_builder.cpp', 'if (std::find(_excluded_labels.begin(), _excluded_labels.end(), new_label) == _excluded_labels.end())', '''const auto excludes = [&](const std::string& x) { return new_label.compare(0, x.size(), x) == 0; };
            if (std::none_of(_excluded_labels.begin(), _excluded_labels.end(), excludes))''')],
      needs='an entry whose label begins with an excluded label', breaks='that entry gets no block either',
      demo=HEAD + r'''
#include "src/block/extra/bus_pipe.hpp"
int main()
{
    Submodel m(nullptr, "m");
    ScalarSignal a("a"), b("b"), c("c"), d("d");
    BusPipe p(m, {"pos"});
    p.connect(Bus({{"pos", a}, {"pos_x", b}}), Bus({{"pos", c}, {"pos_x", d}}));
    int n = 0;
    m.visit([&](Block& k, uint32_t) { n += k.name().str() == "pos_x"; return true; }, 0);
    MUST(n == 1);
    return 0;
}
'''),
]
