#include <array>
#include <map>
#include <ostream>
#include <string>
#include <utility>
#include <vector>
#include <uncertainties/core.hpp>
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/impl.hpp>
