#pragma once
#include "craftpp/core.hpp"
