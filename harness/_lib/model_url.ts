// A stand-in for node:url: modules the harness "wrote" are served as data: URLs.
export const served: any = { asked: [] };
let serial = 0;
const copy = Math.random().toString(36).slice(2); // module URLs are read once only
export const pathToFileURL = (p: string): any => {
  served.asked.push(p);
  serial++;
  return { href: `data:text/javascript,export default globalThis[Symbol.for("sx.served")](${served.asked.length - 1}) // ${copy} ${serial}` };
};
export const fileURLToPath = (u: any): string => u.pathname;
