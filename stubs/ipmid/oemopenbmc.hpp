#pragma once
namespace oem { enum Cmd { fanManualCmd = 3 }; }
