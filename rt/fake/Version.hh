#pragma once
#define VERSION_FULL_STRING "0.0.0"
