// A second user of the header.
#include <sm/boost/ptime.hpp>
timeval P25_second(const boost::posix_time::ptime& t) { return sm::ptimeToTimeval(t); }
