#include <boost/json/src.hpp>
