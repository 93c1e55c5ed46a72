// Stand-in: the clock reads time() and counts seconds since the epoch, without going through a calendar.
#ifndef DATE_TIME_TIME_CLOCK_HPP___
#define DATE_TIME_TIME_CLOCK_HPP___
#include "boost/date_time/c_time.hpp"
#include "boost/shared_ptr.hpp"
#include <time.h>
namespace boost { namespace date_time {
template<class time_type> class second_clock { public:
    typedef typename time_type::date_type date_type; typedef typename time_type::time_duration_type time_duration_type;
    static time_type universal_time() { return time_type(date_type(1970, 1, 1), time_duration_type(0, 0, ::time(0))); }
    static time_type local_time() { return universal_time(); }
}; } }
#endif
