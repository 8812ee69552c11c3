// A stand-in for @logtape/file: a sink that remembers what it was made for.
export const getFileSink = (path: any, options?: any): any => Object.assign(() => {}, { path, options });
