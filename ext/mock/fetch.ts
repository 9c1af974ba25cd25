import { current } from './world';
export class FetchError extends Error {}
export class Headers {}
export default async function fetch(url: string, options: any = {}) {
    const headers: Record<string, string> = {};
    const given = options.headers ?? {};
    for (const [k, v] of typeof given.entries === 'function' ? given.entries() : Object.entries(given)) headers[String(k).toLowerCase()] = String(v);
    current.w.fetched.push({ url: String(url), headers });
    return current.w.fetch(String(url), headers);
}
export { fetch };
