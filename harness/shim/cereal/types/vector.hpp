// stand-in for cereal: archives are the harness's own
#pragma once
