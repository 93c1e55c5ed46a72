#include <boost/filesystem/operations.hpp>
