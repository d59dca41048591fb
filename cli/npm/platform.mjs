// Makes the process look as if it ran on another platform.
import os from "node:os";
import { syncBuiltinESMExports } from "node:module";
const [platform, arch] = process.env.SMD_PLATFORM.split("/");
os.platform = () => platform;
os.arch = () => arch;
Object.defineProperty(process, "platform", { value: platform });
Object.defineProperty(process, "arch", { value: arch });
syncBuiltinESMExports();
