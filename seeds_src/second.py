import importlib.util, os
sp = importlib.util.spec_from_file_location('first', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'first.py'))
first = importlib.util.module_from_spec(sp)
sp.loader.exec_module(first)
HEAD = first.HEAD
S = [
 dict(id='c01-array-kept-size', property='C01', edits=[('signal/array_signal.hpp', '''        pooya_debug_verify(!assigned(), name().str() + ": re-assignment is prohibited!");
''', '''        pooya_debug_verify(!assigned(), name().str() + ": re-assignment is prohibited!");
        _array_value = value;
'''), ('signal/array_signal.hpp', '''                                                           std::to_string(value.rows()) + ")!");
        _array_value = value;
''', '''                                                           std::to_string(value.rows()) + ")!");
''')],
      needs='an array of another size is assigned, the exception is caught, and the signal is used again',
      breaks='the rejected array has already replaced the stored one, so the signal can never be assigned again',
      demo=HEAD + r'''
int main()
{
    ArraySignal a(3, "a");
    Array two(2), three(3);
    two << 1, 2;
    three << 4, 5, 6;
    MUST(throws([&] { a = two; }));
    MUST(!a->assigned());
    a = three;
    MUST(a[2] == 6);
    return 0;
}
'''),
 dict(id='c02-wrong-type-release', property='C02', edits=[('signal/signal.hpp', '''        pooya_verify(dynamic_cast<typename Types<T>::SignalImpl*>(sig),
                     (sig ? sig->name().str() : std::string("(null)")) + ": invalid signal type!");''',
  '''        pooya_debug_verify(dynamic_cast<typename Types<T>::SignalImpl*>(sig),
                     (sig ? sig->name().str() : std::string("(null)")) + ": invalid signal type!");'''),
  ('signal/signal.hpp', '''        _typed_ptr = std::dynamic_pointer_cast<Impl>(_ptr->shared_from_this());
        pooya_verify(_typed_ptr, "Illegal cast attempted.");''', '''        // the type is verified already
        _typed_ptr = std::static_pointer_cast<Impl>(_ptr->shared_from_this());''')],
      needs='a release build in which a handle is made from a signal of another type', release=True,
      breaks='a typed handle to a signal of another type comes into being instead of an exception',
      demo=HEAD + r'''
int main()
{
    IntSignal i("i");
    const Signal& g = i;
    MUST(throws([&] { ScalarSignal s(g); }));
    ArraySignal a(2, "a");
    MUST(throws([&] { a.reset(i); }));
    return 0;
}
'''),
 dict(id='c03-weak-derivative', property='C03', edits=[('signal/float_signal.hpp', '''    std::shared_ptr<typename Types<T>::SignalImpl> _deriv_sig{
        nullptr}; // the derivative''', '''    std::weak_ptr<typename Types<T>::SignalImpl>
        _deriv_sig; // the derivative'''),
  ('signal/float_signal.hpp', 'state_variable() const { return _deriv_sig.get(); }', 'state_variable() const { return _deriv_sig.lock().get(); }'),
  ('signal/float_signal.hpp', 'deriv_signal() const { return _deriv_sig.get(); }', 'deriv_signal() const { return _deriv_sig.lock().get(); }')],
      needs='a derivative signal that nothing but its state variable refers to any more',
      breaks='the derivative signal dies although it is registered, and the state stops being a state variable',
      demo=HEAD + r'''
int main()
{
    ScalarSignal x("x");
    {
        ScalarSignal dx("dx");
        x->set_deriv_signal(dx);
        MUST(x->state_variable());
    }
    MUST(x->state_variable());
    MUST(x->deriv_signal()->name().str() == "dx");
    return 0;
}
'''),
 dict(id='c04-digit-zero', property='C04', edits=[('shared/named_object.cpp', "(('0' <= c) && (c <= '9'))", "(('0' < c) && (c <= '9'))")],
      needs='a name that contains the digit 0', breaks='zeros in names turn into underscores',
      demo=HEAD + r'''
int main()
{
    for (const char* s : {"x0", "a10b", "Z_9", "0"}) MUST(ValidName(s).str() == s);
    MUST((ValidName("p") / "n 0").str() == "p/n_0");
    return 0;
}
'''),
 dict(id='c05-deep-try', property='C05', edits=[('signal/bus.hpp', '''    std::optional<Signal> try_at(std::string_view label) const
    {
        pooya_trace("label: " + std::string(label));

        auto pos                  = label.find(".");''', '''    std::optional<Signal> try_at(std::string_view label) const
    {
        pooya_trace("label: " + std::string(label));

        auto pos                  = label.rfind(".");''')],
      needs='the non-throwing lookup of a label with three or more parts', breaks='a signal three levels deep is not found',
      demo=HEAD + r'''
int main()
{
    ScalarSignal x("x");
    Bus c({{"x", x}}), b({{"c", c}}), a({{"b", b}});
    MUST(a->try_at("b").has_value());
    MUST(b->try_at("c.x").has_value());
    MUST(a->try_at("b.c.x").has_value());
    MUST(&a->try_at("b.c.x")->impl() == &x.impl());
    MUST(!a->try_at("b.c.y").has_value());
    return 0;
}
'''),
 dict(id='c11-last-child-counts', property='C11', edits=[('block/submodel.cpp', 'n_processed += block->process(t);', 'n_processed = block->process(t);')],
      needs='a submodel whose last block makes no progress in a sweep in which an earlier one does, with work left for the next sweep',
      breaks='the sweep is reported as idle and evaluation stops although blocks could still run',
      demo=HEAD + r'''
int main()
{
    // the source first and last, the chain backwards in between
    Submodel m(nullptr, "m");
    ScalarSignal a("a"), b("b"), c("c"), d("d"), e("e");
    Pipe p3(&m, "p3"), p2(&m, "p2"), p1(&m, "p1");
    Const k(2.0, &m, "k"), z(1.0, &m, "z");
    p3.connect({c}, {d});
    p2.connect({b}, {c});
    p1.connect({a}, {b});
    k.connect({}, {a});
    z.connect({}, {e});
    Simulator sim(m);
    sim.init(0.0);
    MUST(d->assigned());
    MUST(d == 2.0);
    return 0;
}
'''),
 dict(id='c12-late-joiner', property='C12', edits=[('solver/fast_simulator.cpp', '                list.push_back(leaf);', '                list.insert(list.begin(), leaf);')],
      needs='a block that becomes ready within the round, listed before another block that was ready from the start',
      breaks='the remembered order has the block before its producer',
      demo=HEAD + r'''
int main()
{
    Submodel m(nullptr, "m");
    ScalarSignal a("a"), b("b"), c("c");
    double v = 0.0;
    Source s([&](double t) { return t; }, &m, "s");
    Pipe p(&m, "p");
    Const k(1.0, &m, "k");
    s.connect({}, {a});
    p.connect({a}, {b});
    k.connect({}, {c});
    FastSimulator sim(m);
    MUST(!throws([&] { sim.init(0.0); }));
    for (int i = 1; i < 4; i++)
    {
        MUST(!throws([&] { sim.run(i); }));
        v = b;
        MUST(v == i);
    }
    return 0;
}
'''),
 dict(id='c13-hook-order', property='C13', edits=[('solver/simulator.cpp', '''    if (_inputs_cb)
    {
        _inputs_cb(_model, t);
    }
    _model.input_cb(t);
''', '''    _model.input_cb(t);
    if (_inputs_cb)
    {
        _inputs_cb(_model, t);
    }
''')],
      needs='a model whose own input hook uses what the callback supplied', breaks='the hook runs before the callback of the pass',
      demo=HEAD + r'''
struct M : Submodel
{
    std::string* log;
    explicit M(std::string* l) : Submodel(nullptr, "m"), log(l) {}
    void input_cb(double) override { *log += "h"; }
    void pre_step(double t) override { *log += "b"; Submodel::pre_step(t); }
    void post_step(double t) override { *log += "e"; Submodel::post_step(t); }
};
int main()
{
    std::string log;
    M m(&log);
    Simulator sim(m, [&](Block&, double) { log += "c"; });
    sim.init(0.0);
    MUST(log == "chbe");
    return 0;
}
'''),
 dict(id='c14-internal-signals', property='C14', edits=[('solver/simulator_base.cpp', '''                value_signals.insert(sig.first.get());
''', '''                if (sig.second & (Block::SignalLinkType::Input | Block::SignalLinkType::Output))
                {
                    value_signals.insert(sig.first.get());
                }
''')],
      needs='a block that links a signal as internal only', breaks='such a signal is not cleared before the next evaluation',
      demo=HEAD + r'''
struct B : Leaf
{
    ScalarSignal inner{"inner"};
    explicit B(Submodel* p) : Leaf(p, "b") {}
    bool connect(const Bus& i = Bus(), const Bus& o = Bus()) override
    {
        Leaf::connect(i, o);
        link_signal(inner, Internal);
        return true;
    }
    void activation_function(double t) override { inner = t; }
};
int main()
{
    Submodel m(nullptr, "m");
    B b(&m);
    b.connect();
    Simulator sim(m);
    MUST(!throws([&] { sim.init(0.0); sim.run(1.0); sim.run(2.0); }));
    MUST(b.inner == 2.0);
    return 0;
}
'''),
 dict(id='c15-arrays-first', property='C15', edits=[('solver/simulator_base.cpp', '''    double* data = state_variables.data();
    for (auto& sig : scalar_state_signals_)
    {
        *data = sig->get_value();
        data++;
    }
#ifdef POOYA_ARRAY_SIGNAL
    for (auto& sig : array_state_signals_)
    {
        Eigen::Map<Array>(data, sig->size()) = sig->get_value();
        data += sig->size();
    }
#endif // POOYA_ARRAY_SIGNAL
''', '''    double* data = state_variables.data();
#ifdef POOYA_ARRAY_SIGNAL
    for (auto& sig : array_state_signals_)
    {
        Eigen::Map<Array>(data, sig->size()) = sig->get_value();
        data += sig->size();
    }
#endif // POOYA_ARRAY_SIGNAL
    for (auto& sig : scalar_state_signals_)
    {
        *data = sig->get_value();
        data++;
    }
''')],
      needs='a model with scalar and array states at the same time', breaks='states are read in another order than they are written back',
      demo=HEAD + r'''
int main()
{
    Submodel m(nullptr, "m");
    ScalarSignal x("x"), dx("dx");
    ArraySignal y(2, "y"), dy(2, "dy");
    Array y0(2), r(2);
    y0 << 10, 20;
    r << 1, 2;
    Const k(0.5, &m, "k");
    ConstA ka(r, &m, "ka");
    Integrator i(3.0, &m, "i");
    IntegratorA ia(y0, &m, "ia");
    k.connect({}, {dx});
    ka.connect({}, {dy});
    i.connect({dx}, {x});
    ia.connect({dy}, {y});
    Euler e;
    Simulator sim(m, nullptr, &e);
    sim.init(0.0);
    sim.run(1.0);
    MUST(near_(x, 3.5));
    MUST(near_(y[0], 11) && near_(y[1], 22));
    return 0;
}
'''),
 dict(id='c17-swallow-rest', property='C17', edits=[('solver/simulator_base.cpp', '''                    t1           = t2;
                    t2           = std::min(t1 + new_h, t);
''', '''                    t1           = t2;
                    t2           = std::min(t1 + new_h, t);
                    if (t - t2 < min_time_step)
                    {
                        t2 = t; // no tiny step at the end
                    }
''')],
      needs='a run whose last regular sub-step would end less than the minimum step before its end',
      breaks='the last sub-step is longer than the maximum step',
      demo=HEAD + r'''
struct St : StepperBase
{
    std::vector<double> h;
    void step(StepperCallback cb, double t0, const Array& x0, double t1, Array& x1, double& new_h) override
    {
        h.push_back(t1 - t0);
        x1 = x0 + (t1 - t0) * cb(t0, x0);
        new_h = 10;
    }
};
int main()
{
    Submodel m(nullptr, "m");
    ScalarSignal x("x"), dx("dx");
    Const k(1.0, &m, "k");
    Integrator i(0.0, &m, "i");
    k.connect({}, {dx});
    i.connect({dx}, {x});
    St s;
    Simulator sim(m, nullptr, &s);
    sim.init(0.0);
    sim.run(1.05, 0.1, 0.5);
    MUST(near_(x, 1.05));
    for (double h : s.h) MUST(h <= 0.5 + 1e-12);
    return 0;
}
'''),
 dict(id='c18-skipped-commit', property='C18', edits=[('solver/simulator_base.cpp', '''                    if (t1 < t)
                    {
                        reset_with''', '''                    if (t2 < t)
                    {
                        reset_with''')],
      needs='a run of two or more sub-steps', breaks='the sub-step before the last one is never committed',
      demo=HEAD + r'''
struct C : Submodel
{
    std::vector<double> at;
    C() : Submodel(nullptr, "m") {}
    void post_step(double t) override { at.push_back(t); Submodel::post_step(t); }
};
struct St : StepperBase
{
    std::vector<double> ends;
    void step(StepperCallback cb, double t0, const Array& x0, double t1, Array& x1, double& new_h) override
    {
        x1 = x0 + (t1 - t0) * cb(t0, x0);
        new_h = 10;
        ends.push_back(t1);
    }
};
int main()
{
    C m;
    ScalarSignal x("x"), dx("dx");
    Const k(1.0, &m, "k");
    Integrator i(0.0, &m, "i");
    k.connect({}, {dx});
    i.connect({dx}, {x});
    St s;
    Simulator sim(m, nullptr, &s);
    sim.init(0.0);
    m.at.clear();
    sim.run(2.0, 1e-3, 0.5);
    MUST(s.ends.size() >= 4);
    MUST(m.at == s.ends);
    MUST(near_(x, 2.0));
    return 0;
}
'''),
 dict(id='c22-type-unchecked', property='C22', edits=[('signal/float_signal.hpp', '''        Signal::fail_if_invalid_signal_type<T>(&deriv_sig.impl());
''', '')],
      needs='a derivative of another type whose size happens to be the same', breaks='it is registered instead of refused',
      demo=HEAD + r'''
int main()
{
    ScalarSignal x("x"), dx("dx");
    ArraySignal a(1, "a"), da(1, "da");
    x->set_deriv_signal(dx);
    MUST(throws([&] { x->set_deriv_signal(da); }));
    MUST(static_cast<SignalImpl*>(x->deriv_signal()) == static_cast<SignalImpl*>(&dx.impl()));
    MUST(throws([&] { a->set_deriv_signal(dx); }));
    MUST(a->deriv_signal() == nullptr);
    return 0;
}
'''),
 dict(id='c24-uniform-spacing', property='C24', edits=[('block/extra/delay.hpp', '(t - _t[k - 1]) / (_t[k] - _t[k - 1]) + _x[k - 1];', '(t - _t[k - 1]) / (_t[1] - _t[0]) + _x[k - 1];')],
      needs='recorded samples that are not evenly spaced in time', breaks='the interpolation uses the wrong distance',
      demo=HEAD + r'''
int main()
{
    Submodel m(nullptr, "m");
    ScalarSignal x("x"), d("d"), i("i"), y("y");
    Source sx([](double t) { return 10 * t; }, &m, "sx");
    Const cd(1.0, &m, "cd"), ci(-5.0, &m, "ci");
    Delay del(100.0, &m, "del");
    sx.connect({}, {x});
    cd.connect({}, {d});
    ci.connect({}, {i});
    del.connect({{"in", x}, {"delay", d}, {"initial", i}}, {y});
    Simulator sim(m);
    sim.init(0.0);
    for (double t : {1.0, 3.0, 3.5, 6.0, 6.25, 9.0})
    {
        sim.run(t);
        if (t == 3.5) MUST(near_(y, 25));
        if (t == 6.25) MUST(near_(y, 52.5));
    }
    return 0;
}
'''),
 dict(id='c25-third-level', property='C25', edits=[('block/extra/bus_block_builder.cpp', 'visit_bus(full_label + label + ".", Bus(*pa));', 'visit_bus((full_label.empty() ? "" : full_label.substr(0, full_label.find("."))) + (full_label.empty() ? "" : ".") + label + ".", Bus(*pa));')],
      needs='a bus nested four levels deep', breaks='the full labels of the deepest entries lose a part, so the wrong signals (or none) are looked up',
      demo=HEAD + r'''
#include "src/block/extra/bus_pipe.hpp"
int main()
{
    Submodel m(nullptr, "m");
    ScalarSignal x("x"), y("y");
    Bus i3({{"x", x}}), i2({{"c", i3}}), i1({{"b", i2}}), i0({{"a", i1}});
    Bus o3({{"x", y}}), o2({{"c", o3}}), o1({{"b", o2}}), o0({{"a", o1}});
    Const k(3.0, &m, "k");
    k.connect({}, {x});
    BusPipe p(m);
    MUST(!throws([&] { p.connect(i0, o0); }));
    Simulator sim(m);
    sim.init(0.0);
    MUST(y->assigned());
    MUST(y == 3.0);
    return 0;
}
'''),
 dict(id='c25-init-of-neighbour', property='C25', edits=[('block/extra/bus_memory.cpp', 'auto it = _init_values.find(full_label);', '''auto it = _init_values.find(full_label);
    if (it == _init_values.end())
    {
        it = _init_values.find(full_label.substr(full_label.rfind(".") + 1));
    }''')],
      needs='a nested entry without an initial value next to a top-level entry of the same label that has one, the nested bus coming first',
      breaks='the nested entry takes (and uses up) the value given for the other one',
      demo=HEAD + r'''
#include "src/block/extra/bus_memory.hpp"
int main()
{
    Submodel m(nullptr, "m");
    ScalarSignal a("a"), b("b"), c("c"), d("d");
    Bus ni({{"x", a}}), no({{"x", c}});
    std::initializer_list<std::pair<std::string, Signal>> li{{"n", ni}, {"x", b}}, lo{{"n", no}, {"x", d}};
    Bus i(li), o(lo);
    Const k(1.0, &m, "k"), l(1.0, &m, "l");
    k.connect({}, {a});
    l.connect({}, {b});
    BusMemory mem(m, {{"x", 7.0}});
    MUST(!throws([&] { mem.connect(i, o); }));
    Simulator sim(m);
    sim.init(0.0);
    MUST(c == 0.0);
    MUST(d == 7.0);
    return 0;
}
'''),
 dict(id='c26-last-not-highest', property='C26', edits=[('solver/history.cpp', 'if ((_bottom_row == uint(-1)) || (k > _bottom_row))', 'if ((_bottom_row == uint(-1)) || (k != _bottom_row))')],
      needs='a row recorded after a higher one', breaks='the number of rows shrinks and recorded rows are cut off',
      demo=HEAD + r'''
int main()
{
    ScalarSignal s("s");
    History h(4);
    h.track(s);
    for (uint k : {0u, 5u, 2u})
    {
        s->clear();
        s = 10.0 * k;
        h.update(k, k);
    }
    MUST(h.nrows() == 6);
    h.shrink_to_fit();
    MUST(h.nrows() == 6 && h.time().rows() == 6);
    MUST(h[s](5, 0) == 50.0 && h[s](2, 0) == 20.0);
    return 0;
}
'''),
 dict(id='c27-header-order', property='C27', edits=[('solver/history.cpp', '''    ofs << "time";
    for (const auto& h : *this)
    {
        if (h.first)
        {
#ifdef POOYA_ARRAY_SIGNAL
            if (auto* pa = dynamic_cast<ArraySignalImpl*>(h.first.get()); pa)
            {
                for (std::size_t k = 0; k < pa->size(); k++)
                {
                    ofs << "," << h.first->name().str() << "[" << k << "]";
                }
            }
            else
#endif // POOYA_ARRAY_SIGNAL
            {
                ofs << "," << h.first->name().str();
            }
        }
    }
''', '''    ofs << "time";
    for (const auto& sig : _signals)
    {
#ifdef POOYA_ARRAY_SIGNAL
        if (auto* pa = dynamic_cast<ArraySignalImpl*>(sig.get()); pa)
        {
            for (std::size_t k = 0; k < pa->size(); k++)
            {
                ofs << "," << sig->name().str() << "[" << k << "]";
            }
        }
        else
#endif // POOYA_ARRAY_SIGNAL
        {
            ofs << "," << sig->name().str();
        }
    }
''')],
      needs='signals tracked in another order than the one their records are kept in', breaks='the header names the columns in another order than the lines have',
      demo=HEAD + r'''
int main()
{
    ScalarSignal a("a"), b("b");
    a = 1.0;
    b = 2.0;
    for (int order = 0; order < 2; order++)
    {
        History h(2);
        h.track(order ? a : b);
        h.track(order ? b : a);
        h.update(0, 0.5);
        h.export_csv("x.csv");
        std::ifstream f("x.csv");
        std::string head, line;
        std::getline(f, head);
        std::getline(f, line);
        MUST((head == "time,a,b" && line == "0.5,1,2") || (head == "time,b,a" && line == "0.5,2,1"));
    }
    return 0;
}
'''),
 dict(id='c28-clear-in-debug-only', property='C28', edits=[('solver/simulator_base.cpp', '''    pooya_trace0;
    for (auto& sig : value_signals_)
    {
        sig->clear();
    }
    const double* data''', '''    pooya_trace0;
#ifdef POOYA_DEBUG
    for (auto& sig : value_signals_)
    {
        sig->clear();
    }
#endif // POOYA_DEBUG
    const double* data''')],
      needs='a release build and a chain of blocks added in another order than they have to run', release=True,
      breaks='without the debug checks the signals of the last evaluation survive and blocks run with stale inputs',
      demo=HEAD + r'''
int main()
{
    Submodel m(nullptr, "m");
    ScalarSignal a("a"), b("b");
    Pipe p(&m, "p");
    Source s([](double t) { return t; }, &m, "s");
    p.connect({a}, {b});
    s.connect({}, {a});
    Simulator sim(m);
    sim.init(0.0);
    for (double t : {1.0, 2.0, 3.0})
    {
        sim.run(t);
        MUST(b->get_value() == t);
    }
    return 0;
}
'''),
 dict(id='c29-unwound-scopes', property='C29', edits=[('helper/trace.hpp', '#include "defs.hpp"\n', '#include "defs.hpp"\n#include <exception>\n'), ('helper/trace.hpp', '    ~PooyaTracer() { pooya_trace_info.pop_back(); }', '''    ~PooyaTracer()
    {
        // keep the entries of an error for whoever reports it
        if (std::uncaught_exceptions() == 0) pooya_trace_info.pop_back();
    }''')],
      needs='a traced scope left by an exception that is caught', breaks='its entry stays in the traceback for ever',
      demo=HEAD + r'''
int main()
{
    ScalarSignal s("s");
    const auto n = helper::pooya_trace_info.size();
    MUST(throws([&] { s->get_value(); }));
    MUST(helper::pooya_trace_info.size() == n);
    s = 1.0;
    MUST(throws([&] { s = 2.0; }));
    MUST(helper::pooya_trace_info.size() == n);
    return 0;
}
'''),
 dict(id='c30-neutral-factors', property='C30', edits=[('block/extra/multiply.hpp', '''            _ret *= static_cast<const typename Types<T>::SignalImpl*>(&sig.second.impl())->get_value();
''', '''            const auto& factor = static_cast<const typename Types<T>::SignalImpl*>(&sig.second.impl())->get_value();
            if (factor != 1.0) _ret *= factor; // nothing to do for the neutral element
''')],
      needs='the array version of the multiply block to be used', breaks='MultiplyA does not compile any more',
      demo=HEAD + r'''
#include "src/block/extra/multiply.hpp"
int main()
{
    Submodel m(nullptr, "m");
    MultiplyA d(Array::Ones(2), &m, "d");
    MUST(!d.full_name().str().empty());
    return 0;
}
'''),
]
