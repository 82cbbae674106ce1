#pragma once
#define XrdVERSION "5.0.0"
