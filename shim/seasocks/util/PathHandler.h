#pragma once
#include "seasocks/PageHandler.h"
