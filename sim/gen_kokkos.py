#!/usr/bin/env python3
"""Writes a shadow copy of the installed Kokkos_Serial.hpp whose RangePolicy for/reduce patterns run on the simulated
device. usage: gen_kokkos.py OUTDIR"""
import sys, pathlib
src = pathlib.Path('/usr/include/trilinos/Kokkos_Serial.hpp').read_text()

def once(text, old, new):
    assert text.count(old) == 1, (text.count(old), old)
    return text.replace(old, new)

a = src.index('class ParallelFor<FunctorType, Kokkos::RangePolicy<Traits...>, Kokkos::Serial>')
b = src.index('class ParallelReduce<FunctorType, Kokkos::RangePolicy<Traits...>, ReducerType,')
c = src.index('class ParallelScan<FunctorType, Kokkos::RangePolicy<Traits...>,')
head, pf, pr, tail = src[:a], src[a:b], src[b:c], src[c:]

pf = once(pf, '''  inline void execute() const {
    this->template exec<typename Policy::work_tag>();
  }''', '''  template <class TagType>
  typename std::enable_if<std::is_same<TagType, void>::value>::type psim_call(
      long i) const {
    m_functor((typename Policy::member_type)i);
  }
  template <class TagType>
  typename std::enable_if<!std::is_same<TagType, void>::value>::type psim_call(
      long i) const {
    m_functor(TagType{}, (typename Policy::member_type)i);
  }
  static void psim_body(const void* c, long i) {
    static_cast<const ParallelFor*>(c)
        ->template psim_call<typename Policy::work_tag>(i);
  }
  inline void execute() const {
    if (psim::active() && psim::wants<FunctorType>()) {
      psim::launch_for(typeid(FunctorType).name(), (long)m_policy.begin(),
                       (long)m_policy.end(), &ParallelFor::psim_body, this, sizeof(*this));
      return;
    }
    this->template exec<typename Policy::work_tag>();
  }''')

pr = once(pr, '''  inline void execute() const {
    const size_t pool_reduce_size =''', '''  template <class TagType>
  typename std::enable_if<std::is_same<TagType, void>::value>::type psim_call(
      long i, reference_type update) const {
    m_functor((typename Policy::member_type)i, update);
  }
  template <class TagType>
  typename std::enable_if<!std::is_same<TagType, void>::value>::type psim_call(
      long i, reference_type update) const {
    m_functor(TagType{}, (typename Policy::member_type)i, update);
  }
  using psim_join_t = Kokkos::Impl::FunctorValueJoin<ReducerTypeFwd, WorkTagFwd>;
  using psim_ops_t  = Kokkos::Impl::FunctorValueOps<ReducerTypeFwd, WorkTagFwd>;
  static void psim_init(const void* c, void* p) {
    auto* s = static_cast<const ParallelReduce*>(c);
    ValueInit::init(ReducerConditional::select(s->m_functor, s->m_reducer),
                    pointer_type(p));
  }
  static void psim_body(const void* c, long i, void* p) {
    auto* s = static_cast<const ParallelReduce*>(c);
    s->template psim_call<WorkTag>(i, psim_ops_t::reference(pointer_type(p)));
  }
  static void psim_join(const void* c, void* d, const void* p) {
    auto* s = static_cast<const ParallelReduce*>(c);
    psim_join_t::join(ReducerConditional::select(s->m_functor, s->m_reducer), d,
                      p);
  }
  inline void execute() const {
    if (psim::active() && psim::wants<FunctorType>() && m_result_ptr) {
      psim::ReduceOps ops;
      ops.bytes =
          Analysis::value_size(ReducerConditional::select(m_functor, m_reducer));
      ops.init = &ParallelReduce::psim_init;
      ops.body = &ParallelReduce::psim_body;
      ops.join = &ParallelReduce::psim_join;
      psim::launch_reduce(typeid(FunctorType).name(), (long)m_policy.begin(),
                          (long)m_policy.end(), ops, this, sizeof(*this), m_result_ptr);
      Kokkos::Impl::FunctorFinal<ReducerTypeFwd, WorkTagFwd>::final(
          ReducerConditional::select(m_functor, m_reducer), m_result_ptr);
      return;
    }
    const size_t pool_reduce_size =''')
head = once(head, '#include <Kokkos_Macros.hpp>\n', '#include <Kokkos_Macros.hpp>\n#include <psim_kokkos.hpp>\n')
out = pathlib.Path(sys.argv[1]); out.mkdir(parents=True, exist_ok=True)
p = out / 'Kokkos_Serial.hpp'
t = head + pf + pr + tail
if not p.exists() or p.read_text() != t:
    p.write_text(t)
