#pragma once
#include "Python.h"
