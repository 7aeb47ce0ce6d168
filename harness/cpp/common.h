#pragma once
#include <memory>
#include <boost/log/core.hpp>
#include <gsl/gsl_errno.h>
#include <limits>
#include <numeric>
#include "pbt.h"
#include "ref.h"
#include "lognormaldist.h"
#include "functions.h"
#include "relationships.h"
#include "fragility.h"
#include "loss_functions.h"
#include "comp_group.h"
#include "structure.h"
#include "maq.h"
#include "caching.h"
#include "context.h"
#include "replaceable.h"

using namespace SLAT;
using namespace SLAT::Integration;

inline void init_library() {
    boost::log::core::get()->set_logging_enabled(false);
    std::cout.setstate(std::ios_base::badbit);     // the library chats on stdout, and on stderr about its diagnostic context
    std::cerr.setstate(std::ios_base::badbit);
}
inline void reset_library() {
    IntegrationSettings::Reset();
    reset_statistics();
}

typedef LogNormalDist LND;
inline LND lnd(const ref::LN &r) { return LND::LogNormalDist_from_mu_lnX_and_sigma_lnX((double)r.mu, (double)r.sigma); }
