#include <boost/filesystem/operations.hpp>
#include <boost/filesystem/fstream.hpp>
