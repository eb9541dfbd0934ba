#pragma once
#include "common.h"
#include "Common.h"
#include "Debug.h"
#include "Mesh.h"
#include "Hole.h"
#include "Heap.h"
#include "MersenneTwister.h"
#include "FastMarchingMethod.h"
#include "LevelSet.h"
#include "Boundary.h"
#include "InputOutput.h"
#include "Sensitivity.h"
