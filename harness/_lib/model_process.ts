// A stand-in for node:process: what is written and the exit code are recorded.
export class Exit extends Error {
  code: any;
  constructor(code: any) { super("exit"); this.code = code; }
}
export const proc: any = {
  argv: ["node", "/bin/prog"],
  env: {},
  platform: "linux",
  log: [] as any[],
  stdout: { isTTY: false, columns: undefined, write(t: any) { proc.log.push("out", t); return true; } },
  stderr: { isTTY: false, columns: undefined, write(t: any) { proc.log.push("err", t); return true; } },
  exit(code: any) { proc.log.push("exit", code); throw new Exit(code); },
  cwd: () => "/",
};
export default proc;
export const env = proc.env, argv = proc.argv;
