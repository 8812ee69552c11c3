// A stand-in for node:fs whose answers the harness decides.
export const fsHooks: any = {};
const call = (n: string) => (...a: any[]) => {
  if (!fsHooks[n]) throw new Error("unexpected file system call " + n);
  return fsHooks[n](...a);
};
export const existsSync = call("existsSync");
export const statSync = call("statSync");
export const lstatSync = call("lstatSync");
export const accessSync = call("accessSync");
export const readFileSync = call("readFileSync");
export const writeFileSync = call("writeFileSync");
export const mkdirSync = call("mkdirSync");
export const rmSync = call("rmSync");
export const readdirSync = call("readdirSync");
export default { existsSync, statSync, lstatSync, accessSync, readFileSync, writeFileSync, mkdirSync, rmSync, readdirSync };
