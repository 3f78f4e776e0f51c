HEAD = r'''
#include "src/block/extra/add.hpp"
#include "src/block/extra/const.hpp"
#include "src/block/extra/delay.hpp"
#include "src/block/extra/divide.hpp"
#include "src/block/extra/function.hpp"
#include "src/block/extra/derivative.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/extra/initial_value.hpp"
#include "src/block/extra/memory.hpp"
#include "src/block/extra/multiply.hpp"
#include "src/block/extra/pipe.hpp"
#include "src/block/extra/siso_function.hpp"
#include "src/block/extra/source.hpp"
#include "src/block/extra/subtract.hpp"
#include "src/block/extra/triggered_integrator.hpp"
#include "src/block/integrator.hpp"
#include "src/block/submodel.hpp"
#include "src/signal/array_signal.hpp"
#include "src/signal/bool_signal.hpp"
#include "src/signal/int_signal.hpp"
#include "src/signal/scalar_signal.hpp"
#include "src/signal/bus.hpp"
#include "src/solver/euler.hpp"
#include "src/solver/rk4.hpp"
#include "src/solver/rkf45.hpp"
#include "src/solver/simulator.hpp"
#include "src/solver/fast_simulator.hpp"
#include "src/solver/history.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <iostream>
using namespace pooya;
#define MUST(x) do { if (!(x)) { std::printf("FAILED line %d: %s\n", __LINE__, #x); return 1; } } while (0)
template<typename F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
inline bool near_(double a, double b, double e = 1e-9) { return std::fabs(a - b) < e; }
'''
S = [
 dict(id='c06-shared-signal-roles', property='C06', edits=[('block/block.cpp', 'pair->second = pair->second | types;', 'pair->second = types;')],
      needs='the same value signal connected both as input and as output (or twice) of one block, so that link_signal meets it again',
      breaks='a signal met again loses the roles it had: an input that is also an output is no longer required, so the block runs before it has a value',
      demo=HEAD + r'''
struct B : Leaf { B() : Leaf() {} void activation_function(double) override {} void links() {} auto& l() const { return linked_signals(); } };
int main()
{
    ScalarSignal s("s");
    B b;
    b.connect({s}, {s});
    MUST(b.l().size() == 1);
    MUST(b.l()[0].second == (Block::Input | Block::Required | Block::Output));
    return 0;
}
'''),
 dict(id='c06-partial-connect', property='C06', edits=[('block/block.cpp', '''    pooya_verify((_num_oports == NoIOLimit) || (obus.size() == _num_oports),
                 _num_oports == 0 ? full_name().str() + " cannot generate any output."
                                  : full_name().str() + " requires " + std::to_string(_num_oports) +
                                        std::string(" output signal") + (_num_oports == 1 ? "." : "s."));

    _linked_signals.reserve(ibus.size() + obus.size());

    for (auto& [label, sig] : ibus)
    {
        if (dynamic_cast<ValueSignalImpl*>(&sig.impl()))
        {
            link_signal(sig, SignalLinkType::Input | SignalLinkType::Required);
        }
    }
''', '''    _linked_signals.reserve(ibus.size() + obus.size());

    for (auto& [label, sig] : ibus)
    {
        if (dynamic_cast<ValueSignalImpl*>(&sig.impl()))
        {
            link_signal(sig, SignalLinkType::Input | SignalLinkType::Required);
        }
    }

    pooya_verify((_num_oports == NoIOLimit) || (obus.size() == _num_oports),
                 _num_oports == 0 ? full_name().str() + " cannot generate any output."
                                  : full_name().str() + " requires " + std::to_string(_num_oports) +
                                        std::string(" output signal") + (_num_oports == 1 ? "." : "s."));
''')],
      needs='a connection refused because of the number of outputs, caught by the caller, followed by a correct connection with other inputs',
      breaks='a refused connection leaves links to its inputs behind: the block later waits for a signal it is not connected to',
      demo=HEAD + r'''
int main()
{
    ScalarSignal u("u"), v("v"), y("y"), z("z");
    Gain g(2.0);
    MUST(throws([&] { g.connect({u}, {y, z}); }));
    MUST(g.linked_signals().empty());
    g.connect({v}, {y});
    v->clear(); u->clear(); y->clear();
    v = 3.0;
    MUST(g.process(0.0) == 1);
    MUST(near_(y, 6.0));
    return 0;
}
'''),
 dict(id='c07-divide-arity', property='C07', edits=[('block/extra/divide.hpp', 'Base(parent, name, 2, 1)', 'Base(parent, name, Block::NoIOLimit, 1)')],
      needs='a division connected with three inputs by mistake',
      breaks='a division no longer refuses more than two inputs and silently ignores the others',
      demo=HEAD.replace('#include "src/block/extra/gain.hpp"', '#include "src/block/extra/gain.hpp"\n#include "src/block/extra/divide.hpp"') + r"""
int main()
{
    ScalarSignal a("a"), b("b"), c("c"), y("y");
    Divide d;
    MUST(throws([&] { d.connect({a, b, c}, {y}); }));
    MUST(!d.connected());
    return 0;
}
"""),
 dict(id='c08-ready-first', property='C08', edits=[('block/leaf.cpp', '''        if ((sig.second & SignalLinkType::Required) && !sig.first->assigned())
        {
            return false;
        }
''', '''        if (sig.second == (SignalLinkType::Input | SignalLinkType::Required) && !sig.first->assigned())
        {
            return false;
        }
''')],
      needs='a required signal with a further role: the output of an integrator (Output|Required), or an input that is also an output',
      breaks='a block whose required signal carries another role as well runs although that signal has no value',
      demo=HEAD + r'''
struct B : Leaf { int n{0}; B() : Leaf() {} void activation_function(double) override { ++n; } };
int main()
{
    ScalarSignal s("s");
    B b;
    b.connect({s}, {s});
    s->clear();
    b._mark_unprocessed();
    MUST(b.process(0.0) == 0);
    MUST(b.n == 0);
    s = 1.0;
    MUST(b.process(0.0) == 1);
    return 0;
}
'''),
 dict(id='c09-last-block-decides', property='C09', edits=[('block/submodel.cpp', '''                n_processed += block->process(t);
                if (not block->processed())
                {
                    _processed = false;
                }''', '''                n_processed += block->process(t);
                _processed = block->processed();''')],
      needs='a submodel whose last block can run in the first sweep while an earlier one cannot yet',
      breaks='a submodel counts as processed when its last block is, so its other blocks are never evaluated in that pass',
      demo=HEAD + r'''
int main()
{
    Submodel m;
    ScalarSignal u("u"), v("v"), w("w");
    Gain second(3.0, &m, "second"), first(2.0, &m, "first");
    second.connect({v}, {w});
    first.connect({u}, {v});
    for (auto* s : {&u, &v, &w}) (*s)->clear();
    u = 1.0;
    m._mark_unprocessed();
    MUST(m.process(0.0) == 1);
    MUST(!m.processed());
    MUST(m.process(0.0) == 1);
    MUST(m.processed());
    MUST(near_(w, 6.0));
    return 0;
}
'''),
 dict(id='c09-mark-shallow', property='C09', edits=[('block/submodel.cpp', '''    for (auto* block : _blocks)
    {
        block->_mark_unprocessed();
    }
}
''', '''    for (auto* block : _blocks)
    {
        if (block->processed()) block->_mark_unprocessed();
    }
}
''')],
      needs='a nested submodel that was left incomplete in the previous pass while some of its blocks ran',
      breaks='blocks inside an incomplete nested submodel keep their processed mark and are skipped in the next pass',
      demo=HEAD + r'''
int main()
{
    Submodel m;
    Submodel n(&m, "n");
    ScalarSignal u("u"), v("v"), w("w"), z("z");
    Gain a(2.0, &n, "a"), b(3.0, &n, "b");
    a.connect({u}, {v});
    b.connect({w}, {z});
    for (auto* s : {&u, &v, &w, &z}) (*s)->clear();
    u = 1.0;
    m._mark_unprocessed();
    MUST(m.process(0.0) == 1);
    MUST(a.processed() && !b.processed() && !n.processed());
    for (auto* s : {&u, &v, &w, &z}) (*s)->clear();
    u = 2.0; w = 1.0;
    m._mark_unprocessed();
    MUST(!a.processed());
    m.process(0.0);
    MUST(v->assigned() && near_(v, 4.0));
    return 0;
}
'''),
 dict(id='c10-relink', property='C10', edits=[('block/submodel.cpp', 'if (std::find(_blocks.begin(), _blocks.end(), &block) == _blocks.end()) _blocks.push_back(&block);', 'if (_blocks.empty() || _blocks.back() != &block) _blocks.push_back(&block);')],
      needs='a block registered again after another block was added to the same parent',
      breaks='a block registered twice is listed twice and its phases run twice per step',
      demo=HEAD + r'''
struct B : Gain { int n{0}; using Gain::Gain; void post_step(double) override { ++n; } };
int main()
{
    Submodel m;
    ScalarSignal u("u"), v("v"), w("w");
    B a(2.0, &m, "a"), b(2.0, &m, "b");
    b.connect({v}, {w});
    m.add_block(a, {u}, {v});
    m.post_step(0.0);
    MUST(a.n == 1 && b.n == 1);
    return 0;
}
'''),
 dict(id='c16-rkf45-k5', property='C16', edits=[('solver/rkf45.cpp', '(845. / 4104) * _K4', '(854. / 4104) * _K4')],
      needs='any system whose accuracy is actually compared with the order of the method',
      breaks='a stage of RKF45 uses a wrong coefficient: the method loses its order',
      demo=HEAD + r'''
static double run(double h)
{
    Rkf45 s;
    Submodel m;
    ScalarSignal dx("dx"), x("x");
    Integrator in(1.0, &m);
    in.connect({dx}, {x});
    SISOFunction fb([](double t, double x) -> double { return x * std::cos(t) - 0.3 * x * x; }, &m);
    fb.connect({x}, {dx});
    Simulator sim(m, nullptr, &s);
    sim.init(0.0);
    for (int k = 1; k <= int(2.0 / h + 0.5); k++) sim.run(k * h);
    return x;
}
int main()
{
    double a = run(0.1), b = run(0.05), c = run(0.025);
    double q = std::fabs((a - b) / (b - c));
    std::printf("ratio %g\n", q);
    MUST(q > 11.0);
    return 0;
}
'''),
 dict(id='c19-delay-prunes', property='C19', edits=[('block/extra/delay.hpp', '        t -= _s_delay;\n        if (t <= _t[0])', '''        t -= _s_delay;
        while (_t.size() > 2 && _t[1] < t)
        {
            _t.erase(_t.begin());
            _x.erase(_x.begin());
        }
        if (t <= _t[0])''')],
      needs='a stepper that evaluates at a later trial time and then again at an earlier one (a rejected step, or a delay that grows)',
      breaks='evaluating a delay forgets samples that a later evaluation at an earlier delayed time needs',
      demo=HEAD + r'''
int main()
{
    ScalarSignal d("d"), i("i"), x("x"), y("y");
    Delay delay(100.0);
    delay.connect({{"delay", d}, {"in", x}, {"initial", i}}, {y});
    for (int k = 0; k <= 10; k++)
    {
        x->clear(); x = double(k * k);
        delay.post_step(double(k));
    }
    auto at = [&](double t, double dd) { for (auto* s : {&d, &i, &y}) (*s)->clear(); d = dd; i = -7.0; delay._mark_unprocessed(); delay.process(t); return double(y); };
    double a = at(10.0, 7.5);
    double b = at(10.0, 1.5);
    double c = at(10.0, 7.5);
    MUST(near_(a, 6.5) && near_(b, 72.5));
    MUST(near_(c, a));
    return 0;
}
'''),
 dict(id='c20-memory-keeps-required', property='C20', edits=[('block/extra/memory.hpp', '''Base::find_linked_signal(Base::_s_in.impl())''', '''Base::find_linked_signal(Base::_s_out.impl())''')],
      needs='a feedback loop through a memory whose other blocks do not run without it',
      breaks='the input of a memory stays required, so a loop through a memory can not be solved',
      demo=HEAD + r'''
int main()
{
    Submodel m;
    ScalarSignal u("u"), v("v");
    Memory mem(1.0, &m, "mem");
    Gain g(2.0, &m, "g");
    mem.connect({u}, {v});
    g.connect({v}, {u});
    u->clear(); v->clear();
    m._mark_unprocessed();
    while (m.process(0.0)) {}
    MUST(m.processed());
    MUST(near_(u, 2.0));
    return 0;
}
'''),
 dict(id='c21-trig-array', property='C21', edits=[('block/extra/triggered_integrator.hpp', 'Base::_value.setZero();', 'Base::_value = Array::Zero(1);')],
      needs='an array valued triggered integrator with more than one entry whose trigger is set',
      breaks='after the trigger the state is restarted from a vector of the wrong size',
      demo=HEAD + r'''
int main()
{
    ArraySignal dx(3, "dx"), x(3, "x");
    BoolSignal tr("tr");
    TriggeredIntegratorA in(Array(Array::Ones(3)));
    in.connect({{"in", dx}, {"trigger", tr}}, {x});
    x->clear(); tr->clear(); dx->clear();
    in.pre_step(0.0);
    tr = true; dx = Array(Array::Zero(3));
    in.post_step(0.0);
    x->clear(); tr->clear();
    bool bad = throws([&] { in.pre_step(0.1); });
    MUST(!bad);
    MUST(x->get_value().size() == 3 && x->get_value().abs().sum() == 0.0);
    return 0;
}
'''),
 dict(id='c23-multiply-square', property='C23', edits=[('block/extra/multiply.hpp', '_ret *= ', '_ret = _ret * _ret * ')],
      needs='a product with an initial value other than 1 or with more than one input',
      breaks='the running product is squared at every further input',
      demo=HEAD + r'''
int main()
{
    ScalarSignal a("a"), b("b"), y("y");
    Multiply m(3.0);
    m.connect({a, b}, {y});
    for (auto* s : {&a, &b, &y}) (*s)->clear();
    a = 2.0; b = 5.0;
    m.process(0.0);
    MUST(near_(y, 30.0));
    return 0;
}
'''),
]
