// A stand-in for node:fs/promises whose answers the harness decides.
export const fspHooks: any = {};
const call = (n: string) => async (...a: any[]) => {
  if (!fspHooks[n]) throw new Error("unexpected file system call " + n);
  return fspHooks[n](...a);
};
export const mkdir = call("mkdir");
export const readdir = call("readdir");
export const realpath = call("realpath");
export const stat = call("stat");
export const writeFile = call("writeFile");
