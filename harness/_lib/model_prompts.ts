// Stand-ins for @inquirer/prompts and @clack/prompts: each prompt records its
// kind and configuration, and answers what the script says.
export const script: { calls: [string, any][]; answers: any[]; error: any } = { calls: [], answers: [], error: undefined };
export const CANCEL = Symbol("cancel");
// Like the libraries, a prompt asks again until its validator is content.
const ask = (kind: string, again = true) => async (config: any): Promise<any> => {
  script.calls.push([kind, config]);
  await null;
  if (script.error !== undefined) throw script.error;
  for (const a of script.answers) {
    if (a === CANCEL || !again || config.validate === undefined) return a;
    const said = await config.validate(a);
    if (said === undefined || said === true || said === "") return a;
  }
  return CANCEL;
};
export const confirm = ask("confirm"), number = ask("number"), input = ask("input"), password = ask("password"), editor = ask("editor"), select = ask("select"), rawlist = ask("rawlist"), expand = ask("expand"), checkbox = ask("checkbox"), text = ask("text"), multiselect = ask("multiselect");
export const isCancel = (v: any) => v === CANCEL;
export class Separator {
  type = "separator";
  separator: any;
  constructor(s?: any) { this.separator = s; }
  static isSeparator(v: any) { return v?.type === "separator"; }
}
