#include <boost/context/fiber.hpp>
namespace boost { namespace context { namespace detail {
thread_local fiber_activation_record * current_rec;
static thread_local std::size_t counter;
fiber_activation_record_initializer::fiber_activation_record_initializer() noexcept {
    if ( 0 == counter++) current_rec = new fiber_activation_record();
}
fiber_activation_record_initializer::~fiber_activation_record_initializer() {
    if ( 0 == --counter) { BOOST_ASSERT( current_rec->is_main_context() ); delete current_rec; }
}
fiber_activation_record *& fiber_activation_record::current() noexcept {
    thread_local static fiber_activation_record_initializer initializer;
    return current_rec;
}
}}}
