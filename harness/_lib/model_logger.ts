// A stand-in for @logtape/logtape whose loggers write nothing.
const logger: any = { debug() {}, info() {}, warn() {}, error() {}, trace() {}, fatal() {}, getChild: () => logger, with: () => logger };
export const getLogger = () => logger;
